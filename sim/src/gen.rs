//! Workload generators: message bodies, raw data-phase bytes, command lines, reply texts.
use crate::sim::Sim;

/// Sizes around which buffers, limits and chunkings usually have their edges
pub const EDGES: [u32; 14] = [1, 2, 3, 76, 78, 126, 255, 505, 506, 507, 512, 998, 1000, 1024];

pub fn size(sim: &Sim, big: bool) -> usize {
    match sim.weighted(&[10, 4, 3, if big { 1 } else { 0 }]) {
        0 => sim.draw(12) as usize,
        1 => sim.range(8, 60) as usize,
        2 => {
            let e = *sim.pick(&EDGES) as usize;
            (e + sim.draw(4) as usize).saturating_sub(1)
        }
        _ => {
            let e = match sim.weighted(&[60, 1]) {
                0 => *sim.pick(&[2048u32, 4096, 8192, 16384, 32768]),
                _ => *sim.pick(&[65536, 131072, 1 << 20]),
            } as usize;
            (e + sim.draw(5) as usize) - 2
        }
    }
}

const ATOMS: [&[u8]; 16] = [
    b"a", b".", b"\r\n", b"\r", b"\n", b"..", b"\r\n.", b"\r\n..", b".\r\n", b"\r\n.\r", b"\r.", b"\n.", b"\r\r\n", b"\0", b"\xff", b"\r\n\r\n",
];

const MAIL_WORDS: [&[u8]; 30] = [
    b"From someone Thu Jan  1 00:00:00 1970", b">From x", b"From: a@b", b"Received: from x by y; now", b"Subject: =?utf-8?q?x?=", b"Bcc: z@x", b"Return-Path: <>",
    b"Content-Length: 10", b"Date: ", b"Message-ID: <1@x>", b"--=_boundary--", b" folded", b"\tfolded", b"trailing blank ", b"trailing tab\t", b"\r\n", b"",
    b"QUIT", b"RSET", b"DATA", b"MAIL FROM:<a@b>", b"\xef\xbb\xbf", b"\xc3\xa9", b"\x1a", b"\x04", b"\x0b\x0c", b"\x7f", b"=20=", b"250 ok", b". ",
];

/// A body longer than any buffer, counter or window of usual size
fn huge(sim: &Sim) -> Vec<u8> {
    let mut total = *sim.pick(&[66_000usize, 66_000, 132_000, 300_000, 1_050_000]);
    if sim.chance(1, 60) {
        sim.stat("enormous_body");
        total = *sim.pick(&[10_500_000, 10_500_000, 26_300_000]);
    }
    let mut v = Vec::new();
    let mut style = if total > 100_000 { *sim.pick(&[0, 1, 3]) } else { sim.draw(4) };
    let mut line = if total > 100_000 { *sim.pick(&[76usize, 998]) } else { *sim.pick(&[2usize, 20, 76, 998]) };
    if sim.chance(1, 16) {
        // more lines than 16 bits count
        total = 300_000;
        style = 1;
        line = 2;
    }
    let (per, off) = (*sim.pick(&[5, 2, 1]), sim.draw(5));
    let mut lines = off;
    while v.len() < total {
        match style {
            // one unbroken run, then something
            0 => v.extend(std::iter::repeat(b'x').take(total)),
            // lines of one length, some of them with a dot in front
            1 => {
                for _ in 0..64 {
                    if lines % per == 0 {
                        v.push(b'.');
                    }
                    lines += 1;
                    v.extend(std::iter::repeat(b'l').take(line));
                    v.extend_from_slice(b"\r\n");
                }
            }
            2 => v.extend(b"\r\n.".iter().cycle().take(3 * 64)),
            // dots within the lines: a byte at any offset may be one
            _ => {
                for _ in 0..16 {
                    v.extend(b"x.".iter().cycle().take(line));
                    v.extend_from_slice(if line % 2 == 0 { b"\r\n" } else { b"z\r\n" });
                }
            }
        }
    }
    for _ in 0..sim.draw(6) {
        v.extend_from_slice(*sim.pick(&ATOMS));
    }
    v
}

/// A body of some tens of kilobytes
pub fn long_body(sim: &Sim) -> Vec<u8> {
    let n = *sim.pick(&[2040usize, 4090, 8190, 16380, 32760, 65530]) + sim.draw(24) as usize;
    let unit: &[u8] = *sim.pick(&[&b"\r\n."[..], b".", b"..\r\n", b"line\r\n", b"x", b".line\r\n.\r\n", b"\r\n.\r", b"a long line with a dot.\r\n.and another\r\n"]);
    let mut v: Vec<u8> = unit.iter().cycle().take(n).cloned().collect();
    for _ in 0..sim.draw(4) {
        let at = sim.draw(v.len() as u32) as usize;
        for (i, b) in sim.pick(&[&b"\r\n.\r\n"[..], b"\r\n..", b".\r\n", b"\r", b"\n"]).iter().enumerate() {
            if at + i < v.len() {
                v[at + i] = *b;
            }
        }
    }
    v.extend_from_slice(*sim.pick(&ATOMS));
    v
}

/// A message body
pub fn body(sim: &Sim, big: bool) -> Vec<u8> {
    if big && sim.chance(1, 160) {
        sim.stat("huge_body");
        return huge(sim);
    }
    match sim.weighted(&[12, 6, 4, 2, 2, 2]) {
        4 => {
            // any bytes
            let n = size(sim, false).min(300);
            let at = sim.draw(256) as u8;
            let any = !sim.chance(1, 4);
            (0..n).map(|i| if any { sim.draw(256) as u8 } else { at.wrapping_add(i as u8) }).collect()
        }
        5 => {
            // what mails are made of
            let mut v = Vec::new();
            for _ in 0..sim.draw(10) {
                v.extend_from_slice(*sim.pick(&MAIL_WORDS));
                if sim.chance(1, 2) {
                    v.extend_from_slice(b"\r\n");
                }
            }
            v
        }
        0 => {
            let n = sim.draw(14);
            let mut v = Vec::new();
            for _ in 0..n {
                v.extend_from_slice(*sim.pick(&ATOMS));
            }
            v
        }
        1 => {
            // lines
            let n = sim.draw(8);
            let mut v = Vec::new();
            for _ in 0..n {
                let dots = sim.weighted(&[3, 2, 1]);
                v.extend(std::iter::repeat(b'.').take(dots));
                let l = size(sim, false).min(200);
                let c = b'a' + sim.draw(26) as u8;
                v.extend(std::iter::repeat(c).take(l));
                v.extend_from_slice(b"\r\n");
            }
            if sim.chance(1, 3) {
                v.extend_from_slice(*sim.pick(&ATOMS));
            }
            v
        }
        2 => {
            // bytes over a small alphabet
            let n = size(sim, false).min(300);
            let al: &[u8] = *sim.pick(&[&b".\r\na"[..], &b"\r\n"[..], &b".\r\n"[..], &b".a"[..], &b"\r\n.\0\x80\xff az"[..]]);
            (0..n).map(|_| *sim.pick(al)).collect()
        }
        _ => {
            // a long run with an interesting end
            let n = size(sim, big);
            let mut v: Vec<u8> = match sim.draw(4) {
                0 => vec![b'x'; n],
                1 => vec![b'.'; n],
                2 => b"\r\n.".iter().cycle().take(n).cloned().collect(),
                _ => b"line\r\n".iter().cycle().take(n).cloned().collect(),
            };
            v.extend_from_slice(*sim.pick(&ATOMS));
            v
        }
    }
}

/// Raw bytes as received in the data phase (need not be a correct encoding)
pub fn raw_data(sim: &Sim, big: bool) -> Vec<u8> {
    let mut v;
    match sim.weighted(&[4, 4, 1]) {
        0 => v = crate::model::encode_full(&body(sim, big)),
        1 => v = body(sim, big),
        _ => {
            v = body(sim, big);
            v.extend_from_slice(&body(sim, false));
        }
    }
    v
}

/// Cut `b` into pieces (some may be empty)
pub fn pieces(sim: &Sim, b: &[u8]) -> Vec<Vec<u8>> {
    let n = b.len();
    let mut out = Vec::new();
    match sim.draw(4) {
        0 => out.push(b.to_vec()),
        1 if n <= 600 => out.extend(b.iter().map(|&x| vec![x])),
        2 if n <= 3000 => {
            let mut cur = Vec::new();
            for (i, &x) in b.iter().enumerate() {
                cur.push(x);
                let near = matches!(x, b'\r' | b'\n' | b'.') || b.get(i + 1).map_or(false, |y| matches!(y, b'\r' | b'\n' | b'.'));
                if near && sim.chance(1, 2) {
                    out.push(std::mem::take(&mut cur));
                }
            }
            out.push(cur);
        }
        _ => {
            let mut i = 0;
            while i < n {
                let k = 1 + sim.draw((n / 6).max(5) as u32) as usize;
                let e = (i + k).min(n);
                out.push(b[i..e].to_vec());
                i = e;
            }
        }
    }
    if sim.chance(1, 6) {
        let at = sim.draw(out.len() as u32 + 1) as usize;
        out.insert(at, Vec::new());
    }
    out
}

// ------------------------------------------------------------------ addresses

pub fn domain(sim: &Sim) -> Vec<u8> {
    match sim.weighted(&[8, 3, 2, 2, 1, 2]) {
        5 => {
            let v: &[u8] = *sim.pick(&[&b"localhost"[..], b"example.com", b"invalid", b"local", b"localdomain", b"sim.example.org", b"test", b"a", b"0", b"mail.example.co.uk", b"a-", b"x--y.z-", b"in-addr.arpa"]);
            case(sim, v)
        }
        0 => sim.pick(&[&b"example.org"[..], b"x.y", b"host", b"a-b.c", b"EXAMPLE.com", b"1.2.3.4", b"xn--bcher-kva.example"]).to_vec(),
        1 if sim.chance(1, 2) => format!("[{}.{}.{}.{}]", sim.draw(256), sim.draw(256), sim.draw(256), sim.draw(256)).into_bytes(),
        1 => sim.pick(&[&b"[127.0.0.1]"[..], b"[255.255.255.255]", b"[0.0.0.0]"]).to_vec(),
        2 if sim.chance(2, 3) => ipv6(sim),
        2 => sim.pick(&[&b"[IPv6:::1]"[..], b"[IPv6:2001:db8::1]", b"[IPv6:0:0:0:0:0:0:0:1]", b"[IPv6:::ffff:1.2.3.4]"]).to_vec(),
        3 => {
            let n = 1 + sim.draw(3);
            let mut v = Vec::new();
            for i in 0..n {
                if i > 0 {
                    v.push(b'.');
                }
                for _ in 0..=sim.draw(9) {
                    v.push(*sim.pick(b"abz09AZ"));
                }
                if sim.chance(1, 4) {
                    v.extend_from_slice(b"-q");
                }
            }
            v
        }
        _ => {
            let mut v = vec![b'a'; size(sim, false).max(1)];
            v.extend_from_slice(b".org");
            v
        }
    }
}

/// Any IPv6 literal, in one of the ways to write it
fn ipv6(sim: &Sim) -> Vec<u8> {
    let zeros = if sim.chance(2, 3) { sim.draw(8) } else { 0 };
    let mut g = [0u16; 8];
    for (i, x) in g.iter_mut().enumerate() {
        if (i as u32) < zeros {
            continue;
        }
        *x = match sim.weighted(&[2, 2, 3, 1]) {
            0 => 0,
            1 => 1 + sim.draw(15) as u16,
            2 => sim.draw(0x10000) as u16,
            _ => 0xffff,
        };
    }
    let t = match sim.draw(5) {
        0 => g.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(":"),
        1 => g.iter().map(|x| format!("{:04X}", x)).collect::<Vec<_>>().join(":"),
        2 if zeros >= 2 => format!("::{}", g[zeros as usize..].iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(":")),
        3 => {
            let head = if zeros >= 6 { "::".to_owned() } else { g[..6].iter().map(|x| format!("{:x}:", x)).collect::<String>() };
            format!("{}{}.{}.{}.{}", head, g[6] >> 8, g[6] & 255, g[7] >> 8, g[7] & 255)
        }
        _ => std::net::Ipv6Addr::from(g).to_string(),
    };
    format!("[IPv6:{}]", t).into_bytes()
}

pub fn local(sim: &Sim) -> Vec<u8> {
    match sim.weighted(&[8, 3, 3, 1, 2, 2]) {
        4 => quoted(sim),
        5 => {
            let v: &[u8] = *sim.pick(&[&b"postmaster"[..], b"abuse", b"MAILER-DAEMON", b"root", b"admin", b"nobody", b"null", b"bounces+a=b.c", b"a--b", b"no-reply", b"\"postmaster\"", b"webmaster", b"a.b", b"A"]);
            case(sim, v)
        }
        0 => sim.pick(&[&b"alice"[..], b"bob", b"carol", b"d.e.f", b"x+tag", b"!#$%&'*+-/=?^_`{|}~", b"0"]).to_vec(),
        1 => sim
            .pick(&[&b"\"q\""[..], b"\"\"", b"\"a b\"", b"\"\\\"\"", b"\"\\\\\"", b"\"a@b\"", b"\"<>\"", b"\"a\\ b\"", b"\".\"", b"\"x..y\"", b"\"\\a\""])
            .to_vec(),
        2 => {
            let mut v = Vec::new();
            for i in 0..1 + sim.draw(3) {
                if i > 0 {
                    v.push(b'.');
                }
                for _ in 0..=sim.draw(7) {
                    v.push(*sim.pick(b"abcXYZ019_-+"));
                }
            }
            v
        }
        _ => vec![b'l'; size(sim, false).max(1)],
    }
}

/// Any quoted string: every printable byte, every quoted pair, runs of backslashes
fn quoted(sim: &Sim) -> Vec<u8> {
    let mut v = vec![b'"'];
    let n = if sim.chance(1, 40) { size(sim, false) as u32 } else { sim.draw(9) };
    for _ in 0..n {
        match sim.weighted(&[4, 2, 2, 1]) {
            0 => match 32 + sim.draw(95) as u8 {
                b @ b'"' | b @ b'\\' => v.extend_from_slice(&[b'\\', b]),
                b => v.push(b),
            },
            1 => v.extend_from_slice(&[b'\\', 32 + sim.draw(95) as u8]),
            2 => v.extend_from_slice(sim.pick(&[&b"\\\\"[..], b"\\\"", b"\\\\\\\"", b"\\ "])),
            _ => v.push(*sim.pick(b" @<>.,:;~!a0")),
        }
    }
    v.push(b'"');
    v
}

pub fn email(sim: &Sim) -> Vec<u8> {
    let mut v = local(sim);
    if !sim.chance(1, 8) {
        v.push(b'@');
        v.extend(domain(sim));
    }
    v
}

fn path(sim: &Sim) -> Vec<u8> {
    let mut v = Vec::new();
    let br = !sim.chance(1, 8);
    if br {
        v.push(b'<');
    }
    if sim.chance(1, 8) {
        for i in 0..1 + sim.draw(2) {
            if i > 0 {
                v.push(b',');
            }
            v.push(b'@');
            v.extend(domain(sim));
        }
        v.push(b':');
    }
    v.extend(email(sim));
    if br {
        v.push(b'>');
    }
    v
}

fn params(sim: &Sim) -> Vec<u8> {
    if !sim.chance(1, 6) {
        return Vec::new();
    }
    if sim.chance(1, 3) {
        return odd_params(sim);
    }
    if sim.chance(1, 3) {
        return case(
            sim,
            sim.pick(&[
                &b" BODY=7BIT"[..], b" BODY=BINARYMIME", b" SMTPUTF8", b" SIZE=0", b" SIZE=18446744073709551616", b" SIZE=99999999", b" RET=HDRS", b" ENVID=QQ314159", b" AUTH=<>",
                b" NOTIFY=NEVER", b" MT-PRIORITY=3", b" HOLDFOR=10", b" SIZE", b" SIZE=abc", b" REQUIRETLS", b" BY=120;R", b" SIZE=1 SIZE=2",
            ]),
        );
    }
    sim.pick(&[&b" SIZE=1000"[..], b" BODY=8BITMIME", b" foo", b" a=b c=d", b"  x", b" SIZE=10 ", b" NOTIFY=SUCCESS,FAILURE ORCPT=rfc822;a@b"]).to_vec()
}

/// Parameters with every byte a value may hold, with and without values, repeated ones
pub fn odd_params(sim: &Sim) -> Vec<u8> {
    let mut v = Vec::new();
    let n = if sim.chance(1, 30) { sim.range(10, 70) } else { 1 + sim.draw(3) };
    for _ in 0..n {
        v.extend_from_slice(sim.pick(&[&b" "[..], b" ", b"\t", b" \t  "]));
        for i in 0..1 + sim.draw(6) {
            v.push(if i > 0 { *sim.pick(b"aZ09-b") } else { *sim.pick(b"aZ09b") });
        }
        if !sim.chance(1, 3) {
            v.push(b'=');
            for _ in 0..1 + sim.draw(8) {
                v.push(match 33 + sim.draw(94) as u8 {
                    b'=' => b'+',
                    b => b,
                });
            }
        }
    }
    if sim.chance(1, 4) {
        v.extend_from_slice(sim.pick(&[&b" "[..], b"\t", b" \t "]));
    }
    v
}

fn case(sim: &Sim, k: &[u8]) -> Vec<u8> {
    match sim.weighted(&[6, 1, 1]) {
        0 => k.to_vec(),
        1 => k.to_ascii_lowercase(),
        _ => k.iter().map(|c| if sim.chance(1, 2) { c.to_ascii_lowercase() } else { *c }).collect(),
    }
}

pub fn mail_cmd(sim: &Sim) -> Vec<u8> {
    let mut v = case(sim, b"MAIL FROM:");
    if sim.chance(1, 10) {
        v.extend_from_slice(sim.pick(&[&b" "[..], b"\t", b"  "]));
    }
    if sim.chance(1, 5) {
        v.extend_from_slice(b"<>");
    } else {
        v.extend(path(sim));
    }
    v.extend(params(sim));
    v.extend_from_slice(b"\r\n");
    v
}

pub fn rcpt_cmd(sim: &Sim) -> Vec<u8> {
    let mut v = case(sim, b"RCPT TO:");
    if sim.chance(1, 10) {
        v.push(b' ');
    }
    v.extend(path(sim));
    v.extend(params(sim));
    v.extend_from_slice(b"\r\n");
    v
}

pub fn data_cmd(sim: &Sim) -> Vec<u8> {
    let mut v = case(sim, b"DATA");
    if sim.chance(1, 12) {
        v.extend_from_slice(sim.pick(&[&b" "[..], b"\t ", b"   "]));
    }
    v.extend_from_slice(b"\r\n");
    v
}

pub fn other_cmd(sim: &Sim) -> Vec<u8> {
    let mut v: Vec<u8> = match sim.draw(11) {
        0 => b"NOOP".to_vec(),
        1 => b"RSET".to_vec(),
        2 => b"QUIT".to_vec(),
        3 => b"HELP".to_vec(),
        4 => b"EHLO example.org".to_vec(),
        5 => b"HELO [127.0.0.1]".to_vec(),
        6 => b"VRFY foo".to_vec(),
        7 => b"EXPN list".to_vec(),
        8 => b"NOOP with some text".to_vec(),
        9 => {
            let mut v = b"EHLO ".to_vec();
            v.extend(domain(sim));
            v
        }
        _ => b"HELP MAIL".to_vec(),
    };
    if sim.chance(1, 5) {
        v = case(sim, &v);
    }
    v.extend_from_slice(b"\r\n");
    v
}

/// Lines that are not commands, or nearly so
pub fn bad_line(sim: &Sim, big: bool) -> Vec<u8> {
    let mut v: Vec<u8> = match sim.weighted(&[6, 3, 3, 2, 2, 2]) {
        0 => sim
            .pick(&[
                &b""[..],
                b" ",
                b".",
                b"FOO",
                b"DATA x",
                b"MAIL FROM:",
                b"MAIL FROM",
                b"MAIL FROM:<",
                b"MAIL FROM:<a@b",
                b"MAIL FROM:a b",
                b"MAIL FROM:<a@>",
                b"MAIL FROM:<\"a>",
                b"MAIL FROM:<a..b@c>",
                b"MAIL FROM:<a@[1.2.3]>",
                b"MAIL FROM:<a@[IPv6:zz]>",
                b"MAIL FROM:<a@[",
                b"MAIL FROM:<@x,@y:a@b",
                b"RCPT TO:<>",
                b"RCPT TO:",
                b"RCPT",
                b"RCPT TO:<\"\\",
                b"rcpt to:<a@b> x y z= ",
                b"EHLO",
                b"EHLO [",
                b"HELO [IPv6:",
                b"EXPN",
                b"VRFY",
                b"QUIT now",
                b"RSET \x01",
                b" MAIL FROM:<a@b>",
                b"\xff\xfe",
                b"MAIL FROM:<\xff@b>",
                b"MAIL FROM:<a@\xff>",
                b"RCPT TO:<a@b>\r",
                b"\n",
                b"\r",
                b"DATA\n",
                b"DATA\r",
                b"MAIL FROM:<a@b>\nRCPT TO:<c@d>",
                b"\0",
                b"\0DATA",
                b"DATA\0",
                b"354 x",
                b"STARTTLS",
                b"AUTH PLAIN",
            ])
            .to_vec(),
        1 => {
            // mutate a good line
            let mut l = match sim.draw(4) {
                0 => mail_cmd(sim),
                1 => rcpt_cmd(sim),
                2 => data_cmd(sim),
                _ => other_cmd(sim),
            };
            l.truncate(l.len() - 2);
            for _ in 0..1 + sim.draw(3) {
                if l.is_empty() {
                    break;
                }
                let i = sim.draw(l.len() as u32) as usize;
                match sim.draw(4) {
                    0 => {
                        l.remove(i);
                    }
                    1 => l[i] = odd_byte(sim),
                    2 => l.insert(i, odd_byte(sim)),
                    _ => l.truncate(i),
                }
            }
            l
        }
        2 => {
            let n = sim.draw(20) as usize;
            (0..n).map(|_| sim.draw(256) as u8).collect()
        }
        3 => {
            // long junk
            let n = size(sim, big);
            let c = *sim.pick(b"a.<@\"\\\0\xff \r\n");
            let mut v = vec![c; n];
            if c == b'\n' || c == b'\r' {
                v.push(b'x');
            }
            v
        }
        4 => {
            // a command, overlong
            let n = size(sim, big).max(1);
            let mut v = sim.pick(&[&b"NOOP "[..], b"MAIL FROM:<a@b> X=", b"RCPT TO:<\"", b"HELP ", b"EHLO ", b"VRFY "]).to_vec();
            v.extend(std::iter::repeat(b'x').take(n));
            v
        }
        _ => {
            let n = sim.draw(10) as usize;
            let toks: [&[u8]; 12] = [b"MAIL", b" FROM:", b"<", b">", b"@", b"a", b"RCPT", b" TO:", b"\"", b"\\", b"DATA", b"[IPv6:"];
            let mut v = Vec::new();
            for _ in 0..n {
                v.extend_from_slice(*sim.pick(&toks));
            }
            v
        }
    };
    v.extend_from_slice(b"\r\n");
    v
}

/// A reply text: printable, every length class including empty and several lines' worth
pub fn text(sim: &Sim) -> Vec<u8> {
    let n = match sim.weighted(&[10, 3, 4, 1]) {
        0 => {
            return sim
                .pick(&[&b"ok"[..], b"Okay", b"a", b" ", b"-", b"250 fake", b"\t", b"- x", b"2.1.0 Sender ok", b"no such user", b"try later"])
                .to_vec()
        }
        1 => return Vec::new(),
        2 => {
            let e = *sim.pick(&[505usize, 506, 507, 508, 510, 511, 512, 513, 1011, 1012, 1013, 1014, 1518, 1519, 3036, 100, 499, 500, 501, 600, 1000, 2000]);
            e
        }
        _ if sim.chance(1, 300) => *sim.pick(&[16_384, 65_535, 65_536, 66_286, 131_100]),
        _ => sim.range(1, 2600) as usize,
    };
    let mode = sim.draw(3);
    let c = *sim.pick(b"x -~\t.2");
    (0..n)
        .map(|i| match mode {
            0 => c,
            1 => b'0' + (i % 10) as u8,
            _ => 32 + ((i * 7 + i / 95) % 95) as u8,
        })
        .collect()
}

pub fn code(sim: &Sim) -> u16 {
    match sim.weighted(&[4, 2, 3, 1]) {
        0 => *sim.pick(&[550, 450, 451, 421, 554, 250, 354, 552, 503]),
        2 => *sim.pick(&[211, 214, 220, 221, 251, 252, 452, 455, 500, 501, 502, 504, 551, 553, 555, 521, 556, 535]),
        3 => sim.draw(1000) as u16,
        _ => *sim.pick(&[0, 1, 9, 10, 42, 99, 100, 999, 200, 299, 101, 110, 990, 909]),
    }
}

fn odd_byte(sim: &Sim) -> u8 {
    match sim.draw(3) {
        0 => sim.draw(256) as u8,
        _ => *sim.pick(b" <>@:\"\\[].,=\r\n\t\0\x7f\x80\xff-aA"),
    }
}
