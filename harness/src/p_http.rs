//! C27: http inputs, against a server on the loopback interface.
use std::cell::RefCell;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use chopper::cli::util::YesNoAuto;
use chopper::input::input::InputFormat;
use chopper::source::csv_configs::{TimestampColConfig, TimestampFmtConfig};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::tz::ChopperTz;

use crate::engine::*;
use crate::gen::*;
use crate::memio::*;
use crate::model::*;
use crate::p_input::{gen_dir_file, DirFile, COLS};

/// bytes to send, with pauses between; then how to end
#[derive(Clone)]
struct Script {
    parts: Vec<(Vec<u8>, u64)>,
    end: End,
    target: Option<String>,
    /// what is asked for first, and the response that sends the client elsewhere
    redirect: Option<(String, Vec<u8>)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    /// leave the connection open until the client closes it
    KeepOpen,
    Close,
    Reset,
}

thread_local! {
    static LISTENER: RefCell<Option<TcpListener>> = RefCell::new(None);
}

fn listener() -> Result<TcpListener, String> {
    LISTENER.with(|l| {
        let mut l = l.borrow_mut();
        if l.is_none() {
            let x = TcpListener::bind("127.0.0.1:0").map_err(|e| format!("harness: {}", e))?;
            x.set_nonblocking(true).map_err(|e| format!("harness: {}", e))?;
            *l = Some(x);
        }
        l.as_ref().unwrap().try_clone().map_err(|e| format!("harness: {}", e))
    })
}

fn serve_one(mut c: TcpStream, script: &Script) -> std::io::Result<()> {
    c.set_nonblocking(false)?;
    c.set_nodelay(true)?;
    c.set_read_timeout(Some(Duration::from_secs(10)))?;
    c.set_write_timeout(Some(Duration::from_secs(10)))?;
    let mut req = Vec::new();
    let mut b = [0u8; 4096];
    while !req.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = c.read(&mut b)?;
        if n == 0 {
            return Ok(());
        }
        req.extend_from_slice(&b[..n]);
    }
    if let Some((from, resp)) = &script.redirect {
        if String::from_utf8_lossy(&req).starts_with(&format!("GET {} HTTP/1.", from)) {
            c.write_all(resp)?;
            let _ = c.shutdown(Shutdown::Write);
            let _ = c.read(&mut b);
            return Ok(());
        }
    }
    if let Some(t) = &script.target {
        let line = String::from_utf8_lossy(&req).lines().next().unwrap_or("").to_string();
        if !line.starts_with(&format!("GET {} HTTP/1.", t)) {
            c.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")?;
            return Ok(());
        }
    }
    for (p, pause) in &script.parts {
        if *pause > 0 {
            std::thread::sleep(Duration::from_micros(*pause));
        }
        c.write_all(p)?;
    }
    match script.end {
        End::KeepOpen => {
            let _ = c.read(&mut b);
        }
        End::Close => {
            let _ = c.shutdown(Shutdown::Write);
            let _ = c.read(&mut b);
        }
        End::Reset => {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(c.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
            }
        }
    }
    Ok(())
}

/// runs f with a server that answers every connection with the script; f gets the port
fn with_server<T>(script: Script, f: impl FnOnce(u16) -> T) -> Result<(T, usize), String> {
    let l = listener()?;
    let port = l.local_addr().map_err(|e| format!("harness: {}", e))?.port();
    let stop = Arc::new(AtomicBool::new(false));
    let st = stop.clone();
    let th = std::thread::spawn(move || {
        let mut served = 0;
        let mut conns = Vec::new();
        let start = Instant::now();
        while !st.load(Ordering::SeqCst) && start.elapsed() < Duration::from_secs(60) {
            match l.accept() {
                Ok((c, _)) => {
                    served += 1;
                    let s = script.clone();
                    conns.push(std::thread::spawn(move || {
                        let _ = serve_one(c, &s);
                    }));
                }
                Err(_) => std::thread::sleep(Duration::from_micros(100)),
            }
        }
        for c in conns {
            let _ = c.join();
        }
        served
    });
    let r = f(port);
    stop.store(true, Ordering::SeqCst);
    let served = th.join().map_err(|_| "harness: server".to_string())?;
    Ok((r, served))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Framing {
    Length,
    Chunked,
    UntilClose,
}

fn header_case(s: &mut Src, h: &str) -> String {
    match s.below(3) {
        0 => h.to_string(),
        1 => h.to_lowercase(),
        _ => h.to_uppercase(),
    }
}

/// the whole response, the offset at which the body starts, where the data of each chunk lies
fn response(s: &mut Src, status: &str, body: &[u8], framing: Framing) -> (Vec<u8>, usize, Vec<(usize, usize)>) {
    let version = if framing == Framing::UntilClose && s.bool() { "HTTP/1.0" } else { "HTTP/1.1" };
    let mut heads = vec![];
    match framing {
        Framing::Length => heads.push(format!("{}: {}", header_case(s, "Content-Length"), body.len())),
        Framing::Chunked => heads.push(format!("{}: {}", header_case(s, "Transfer-Encoding"), s.pick(&["chunked", "Chunked"]))),
        Framing::UntilClose => heads.push(format!("{}: close", header_case(s, "Connection"))),
    }
    for _ in 0..s.below(4) {
        let h = s
            .pick(&["Content-Type: text/csv", "Content-Type: text/plain; charset=iso-8859-1", "Content-Type: application/octet-stream", "Server: x", "X-Content-Length: 3", "ETag: \"abc\"", "Set-Cookie: a=b; Path=/", "Accept-Ranges: bytes", "Content-Disposition: attachment; filename=\"x.dc\""])
            .to_string();
        let at = s.below(heads.len() + 1);
        if !heads.contains(&h) {
            heads.insert(at, h);
        }
    }
    let mut o = format!("{} {}\r\n{}\r\n\r\n", version, status, heads.join("\r\n")).into_bytes();
    let start = o.len();
    let mut chunks = Vec::new();
    match framing {
        Framing::Chunked => {
            let avg = *s.pick(&[1usize, 7, 100, 5_000, 100_000]);
            let mut at = 0;
            // at most some thousand chunks
            let least = body.len() / 3000;
            while at < body.len() {
                let n = (least + s.urange(1, avg)).min(body.len() - at);
                let size = match s.below(3) {
                    0 => format!("{:x}", n),
                    1 => format!("{:X}", n),
                    _ => format!("{:04x}", n),
                };
                o.extend_from_slice(format!("{}\r\n", size).as_bytes());
                chunks.push((o.len(), o.len() + n));
                o.extend_from_slice(&body[at..at + n]);
                o.extend_from_slice(b"\r\n");
                at += n;
            }
            o.extend_from_slice(b"0\r\n\r\n");
        }
        _ => o.extend_from_slice(body),
    }
    (o, start, chunks)
}

/// split into writes with pauses
fn pace(s: &mut Src, data: Vec<u8>) -> Vec<(Vec<u8>, u64)> {
    let mut v = Vec::new();
    let mut at = 0;
    let n = s.weighted(&[3, 3, 2, 1]);
    let cuts: Vec<usize> = match n {
        0 => vec![],
        1 => vec![s.below(data.len() + 1)],
        2 => (0..s.urange(2, 6)).map(|_| s.below(data.len() + 1)).collect(),
        _ => (1..data.len().min(40)).collect(),
    };
    let mut cuts = cuts;
    cuts.sort();
    let slow = s.chance(1, 4);
    for c in cuts {
        if c > at {
            v.push((data[at..c].to_vec(), if slow { s.draw(1500) } else { 0 }));
            at = c;
        }
    }
    v.push((data[at..].to_vec(), if slow { s.draw(1500) } else { 0 }));
    v
}

fn cfg() -> Result<chopper::source::csv_configs::CSVInputConfig, String> {
    csv_cfg(Some(","), YesNoAuto::Yes, TimestampColConfig::Name("t".into()), TimestampFmtConfig::Epoch(TimestampUnits::Nanos), ChopperTz::new_always_fails()).map_err(|e| err_text(&e))
}

fn gen_file(s: &mut Src) -> DirFile {
    let dc = s.bool();
    let n = s.urange(1, 5);
    let mut cols: Vec<(String, Ty)> = vec![("t".to_string(), Ty::Str)];
    for c in COLS[1..].iter().take(n) {
        cols.push((c.to_string(), if dc { *s.pick(&VALUE_TYPES) } else { Ty::Str }));
    }
    let mut ts = 1000;
    let mut f = gen_dir_file(s, 0, &cols, dc, false, &mut ts);
    if f.name.starts_with('.') {
        f.name.insert(0, 'h');
    }
    f
}

fn url(s: &mut Src, port: u16, name: &str) -> (String, String) {
    let dirs = *s.pick(&["", "a/", "x.gz/", "deep/er/d.dc/", "a-b_c/"]);
    (format!("http://{}:{}/{}{}", s.pick(&["127.0.0.1", "localhost"]), port, dirs, name), format!("/{}{}", dirs, name))
}

fn plain_name(n: &str) -> bool {
    n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'.' || b == b'_' || b == b'-')
}

fn ask(s: &mut Src, script: Script, name: &str) -> Result<(Drained, usize, String), String> {
    let (u, t) = url(s, 0, name);
    let mut script = script;
    if plain_name(name) {
        script.target = Some(t);
    }
    let c = cfg()?;
    let (r, served) = with_server(script, |port| {
        let u = u.replacen(":0/", &format!(":{}/", port), 1);
        guard(|| drain(open_with(c, None, None, &u, InputFormat::Auto)))
    })?;
    match r {
        Err(p) => Err(format!("crash: {}", p)),
        Ok(d) => Ok((d?, served, u)),
    }
}

fn expect(f: &DirFile, d: &Drained, zip: bool) -> Outcome {
    let t = f.table.as_ref().expect("table");
    if let Some(e) = &d.err {
        if zip {
            // needs a file
            return Ok(());
        }
        return Err(format!("error after {} of {} rows: {}", d.rows.len(), t.rows.len(), e));
    }
    if d.names != t.names || d.types != t.types {
        return Err(format!("schema {:?} {:?}, expected {:?} {:?}", d.names, d.types, t.names, t.types));
    }
    diff_rows(&t.rows, &d.rows)
}

fn label_framing(ctx: &mut Ctx, f: Framing) {
    ctx.label(match f {
        Framing::Length => "content length",
        Framing::Chunked => "chunked",
        Framing::UntilClose => "until close",
    });
}

fn c27_serve(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let f = gen_file(s);
    let framing = *s.pick(&[Framing::Length, Framing::Chunked, Framing::UntilClose]);
    let status = *s.pick(&["200 OK", "200 OK", "200 ", "203 Non-Authoritative Information", "206 Partial Content"]);
    let (resp, _, _) = response(s, status, &f.bytes, framing);
    let end = if framing == Framing::UntilClose || s.bool() { End::Close } else { End::KeepOpen };
    let parts = pace(s, resp);
    let zip = f.how == "zip";
    ctx.label_if(zip, "zip");
    ctx.label_if(f.how != "plain" && !zip, "compressed");
    label_framing(ctx, framing);
    ctx.label_if(parts.len() > 2, "several writes");
    ctx.nontrivial = !f.table.as_ref().unwrap().rows.is_empty() && !zip;
    ctx.describe(|| format!("{:?} ({}, {} bytes) as {:?} {:?} in {} writes, then {:?}; columns {:?}, {} rows", f.name, f.how, f.bytes.len(), status, framing, parts.len(), end, f.table.as_ref().unwrap().names, f.table.as_ref().unwrap().rows.len()));
    let (d, served, u) = ask(s, Script { parts, end, target: None, redirect: None }, &f.name)?;
    if served != 1 {
        return Err(format!("{} connections were made for {:?}", served, u));
    }
    expect(&f, &d, zip)
}

/// a server that takes its time
fn c27_slow(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut f = gen_file(s);
    if f.how == "zip" {
        f = gen_file(s);
    }
    let framing = *s.pick(&[Framing::Length, Framing::Chunked, Framing::UntilClose]);
    let (resp, start, _) = response(s, "200 OK", &f.bytes, framing);
    let end = if framing == Framing::UntilClose || s.bool() { End::Close } else { End::KeepOpen };
    // milliseconds
    let pause = match s.weighted(&[4, 3, 1]) {
        0 => 900 + s.draw(600),
        1 => 2000 + s.draw(400),
        _ => 3300 + s.draw(if ctx.thorough { 32_000 } else { 2000 }),
    };
    let at = match s.below(5) {
        0 => 0,
        1 => 1 + s.below(start - 1),
        2 => start,
        3 => resp.len() - 1,
        _ => s.urange(start, resp.len() - 1),
    };
    let mut parts = vec![(resp[..at].to_vec(), 0), (resp[at..].to_vec(), pause * 1000)];
    if at == 0 {
        parts.remove(0);
    }
    ctx.label(if at == 0 { "before the response" } else if at <= start { "in the head" } else { "in the body" });
    label_framing(ctx, framing);
    ctx.nontrivial = f.how != "zip";
    ctx.describe(|| format!("{:?} ({}, {} bytes) {:?}, {} ms pause ahead of byte {} of {}, then {:?}", f.name, f.how, f.bytes.len(), framing, pause, at, resp.len(), end));
    let (d, served, u) = ask(s, Script { parts, end, target: None, redirect: None }, &f.name)?;
    if served != 1 {
        return Err(format!("{} connections were made for {:?}", served, u));
    }
    expect(&f, &d, f.how == "zip")
}

/// the same contents by http and from a file of that name
fn c27_same(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut f = gen_file(s);
    if f.how == "zip" {
        return Ok(());
    }
    // contents that may not be valid
    match s.below(4) {
        0 => f.bytes = (0..s.below(60)).map(|_| s.draw(255) as u8).collect(),
        1 => {
            let n = s.below(f.bytes.len() + 1);
            f.bytes.truncate(n);
        }
        2 => f.bytes = any_string(s, 80).into_bytes(),
        _ => {}
    }
    let framing = *s.pick(&[Framing::Length, Framing::Chunked, Framing::UntilClose]);
    let (resp, _, _) = response(s, "200 OK", &f.bytes, framing);
    let parts = pace(s, resp);
    ctx.describe(|| format!("{:?} with {} bytes {:?}", f.name, f.bytes.len(), truncate(&String::from_utf8_lossy(&f.bytes), 200)));
    let local = guard(|| drain(open_mem(cfg().unwrap(), &f.name, MemFile::whole(f.bytes.clone()), InputFormat::Auto)));
    let local = match local {
        Ok(d) => d?,
        // a decoder that crashes is the matter of C18 and C29
        Err(_) => return Ok(()),
    };
    ctx.nontrivial = true;
    ctx.label(if local.err.is_some() { "an error from a file too" } else { "readable" });
    let (d, _, _) = ask(s, Script { parts, end: End::Close, target: None, redirect: None }, &f.name)?;
    if d.err.is_some() != local.err.is_some() {
        return Err(format!("by http {:?}, from a file {:?}", d.err, local.err));
    }
    if d.open_failed != local.open_failed || (!d.open_failed && (d.names != local.names || d.types != local.types)) {
        return Err(format!("by http columns {:?} {:?}, from a file {:?} {:?}", d.names, d.types, local.names, local.types));
    }
    diff_rows(&local.rows, &d.rows)
}

/// anything but the whole body of a successful response is an error
fn c27_fail(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let f = gen_file(s);
    if f.how == "zip" || f.bytes.is_empty() {
        return Ok(());
    }
    let mut framing = *s.pick(&[Framing::Length, Framing::Chunked, Framing::UntilClose]);
    let mut end = *s.pick(&[End::Close, End::Close, End::Reset]);
    let what = s.below(6);
    let label: &'static str;
    let mut complete = 0;
    let mut inside_chunk = false;
    let resp = match what {
        0 | 1 => {
            label = "status";
            let st = *s.pick(&[
                "404 Not Found", "500 Internal Server Error", "400 Bad Request", "403 Forbidden", "401 Unauthorized", "503 Service Unavailable", "410 Gone", "304 Not Modified", "300 Multiple Choices", "418 ",
                "599 x", "404 200 OK",
            ]);
            if st.starts_with("304") {
                framing = Framing::Length;
            }
            let body = if s.bool() || st.starts_with("304") { f.bytes.clone() } else { s.pick(&["not here", "", "<html>", "t,a\n1,2\n"]).as_bytes().to_vec() };
            end = End::Close;
            response(s, st, &body, framing).0
        }
        2 | 3 => {
            label = "cut short";
            if framing == Framing::UntilClose {
                framing = Framing::Length;
            }
            let (mut r, start, chunks) = response(s, "200 OK", &f.bytes, framing);
            // chunked: without the last chunk there is no end
            let limit = if framing == Framing::Chunked { r.len() - 5 } else { r.len() - 1 };
            let n = match s.below(3) {
                0 => start,
                1 => limit,
                _ => s.urange(start, limit),
            };
            complete = n - start;
            inside_chunk = framing == Framing::Chunked && chunks.iter().any(|(a, b)| *a <= n && n < *b);
            r.truncate(n);
            r
        }
        4 => {
            label = "no response";
            let (mut r, start, _) = response(s, "200 OK", &f.bytes, framing);
            let n = if s.bool() { 0 } else { s.below(start) };
            r.truncate(n);
            // a status line alone may be taken for a response without headers
            if n > 0 {
                let line = r.iter().position(|b| *b == b'\n').map(|p| p + 1).unwrap_or(r.len());
                r.truncate(line.min(n));
                r.truncate(s.below(12));
            }
            r
        }
        _ => {
            label = "not http";
            s.pick(&["garbage\r\n\r\n", "t,a\n1,2\n", "SSH-2.0-x\r\n", "HTTP/1.1 abc\r\n\r\n", "\r\n\r\n", "HTTP/1.1\r\n\r\n"]).as_bytes().to_vec()
        }
    };
    ctx.nontrivial = true;
    ctx.label(label);
    ctx.label_if(end == End::Reset, "reset");
    ctx.label_if(inside_chunk, "cut inside the data of a chunk");
    ctx.describe(|| format!("{}: {:?} ({}, {} bytes), {} bytes of response ({} of the body) {:?}, {:?}", label, f.name, f.how, f.bytes.len(), resp.len(), complete, framing, end));
    let parts = pace(s, resp);
    let (d, _, _) = ask(s, Script { parts, end, target: None, redirect: None }, &f.name)?;
    if d.err.is_none() && inside_chunk && end == End::Close {
        return Err(format!("http body cut inside the data of a chunk: no error; columns {:?}, {} rows", d.names, d.rows.len()));
    }
    if d.err.is_none() {
        return Err(format!("{} ({:?}): no error; columns {:?}, {} rows", label, framing, d.names, d.rows.len()));
    }
    // what was delivered before is right
    let t = f.table.as_ref().unwrap();
    if !d.open_failed && label == "cut short" && d.names == t.names {
        if d.rows.len() > t.rows.len() {
            return Err(format!("{} rows delivered before the error, the file has {}", d.rows.len(), t.rows.len()));
        }
        return diff_rows(&t.rows[..d.rows.len()], &d.rows);
    }
    Ok(())
}

/// a response that points to another place: that place's contents, or an error
fn c27_redirect(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let f = gen_file(s);
    if !plain_name(&f.name) {
        return Ok(());
    }
    let code = *s.pick(&["301 Moved Permanently", "302 Found", "303 See Other", "307 Temporary Redirect", "308 Permanent Redirect"]);
    let port = listener()?.local_addr().map_err(|e| format!("harness: {}", e))?.port();
    let to = format!("/moved/{}", f.name);
    let from = format!("/old/{}", f.name);
    let location = match s.below(4) {
        0 => to.clone(),
        1 => format!("http://127.0.0.1:{}{}", port, to),
        2 => format!("../moved/{}", f.name),
        // round and round
        _ => from.clone(),
    };
    let round = location == from;
    let note = *s.pick(&["", "t,a\n1,2\n", "<html>moved</html>\n"]);
    let first = format!("HTTP/1.1 {}\r\n{}: {}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{}", code, header_case(s, "Location"), location, note.len(), note).into_bytes();
    let framing = *s.pick(&[Framing::Length, Framing::Chunked, Framing::UntilClose]);
    let found = s.chance(3, 4);
    let (resp, _, _) = response(s, if found { "200 OK" } else { "404 Not Found" }, &f.bytes, framing);
    let parts = pace(s, resp);
    let zip = f.how == "zip";
    ctx.describe(|| format!("{:?} ({}, {} bytes): {:?} to {:?}, there {:?} ({})", f.name, f.how, f.bytes.len(), code, location, framing, if found { "found" } else { "not found" }));
    let c = cfg()?;
    let (r, _) = with_server(Script { parts, end: End::Close, target: Some(to), redirect: Some((from.clone(), first)) }, |port| {
        guard(|| drain(open_with(c, None, None, &format!("http://127.0.0.1:{}{}", port, from), InputFormat::Auto)))
    })?;
    let d = match r {
        Err(p) => return Err(format!("crash: {}", p)),
        Ok(d) => d?,
    };
    if d.err.is_some() && (d.open_failed || d.rows.is_empty()) {
        ctx.label("error");
        ctx.nontrivial = true;
        return Ok(());
    }
    if round || !found {
        return Err(format!("no error; columns {:?}, {} rows", d.names, d.rows.len()));
    }
    ctx.label("followed");
    ctx.nontrivial = !f.table.as_ref().unwrap().rows.is_empty() && !zip;
    expect(&f, &d, zip)
}

/// bodies of many megabytes
fn c27_large(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let framing = *s.pick(&[Framing::Length, Framing::Chunked, Framing::UntilClose]);
    let top = if ctx.thorough { 27 } else { 25 };
    let size = match s.below(3) {
        0 => (1usize << s.urange(20, top)) + s.below(3_000),
        1 => s.urange(1 << 20, 1 << top),
        _ => s.urange(10, 100) * 1_000_000 % (1 << top) + 1 + s.below(3_000),
    };
    let cell = *s.pick(&[300usize, 5_000, 70_000]);
    let mut body = b"t,a\n".to_vec();
    let mut rows = Vec::new();
    while body.len() < size {
        let i = rows.len();
        let v: String = format!("{}-", i).chars().chain((0..(cell + i * 31 % 200).min(size - body.len() + 20)).map(|k| (b'a' + ((i * 7 + k / 3) % 26) as u8) as char)).collect();
        body.extend_from_slice(format!("{},{}\n", 1000 + i, v).as_bytes());
        rows.push(MRow { ts: 1000 + i as u64, vals: vec![Val::Str((1000 + i).to_string()), Val::Str(v)] });
    }
    let gz = s.chance(1, 4);
    let n = body.len();
    let (bytes, name) = if gz { (crate::comp::gz_member(s, &body), "large.csv.gz") } else { (body, "large.csv") };
    let (resp, _, _) = response(s, "200 OK", &bytes, framing);
    let end = if framing == Framing::UntilClose || s.bool() { End::Close } else { End::KeepOpen };
    ctx.label(if n > 16 << 20 { "more than 16 MiB" } else { "more than 1 MiB" });
    ctx.nontrivial = true;
    ctx.describe(|| format!("{} of {} bytes ({} to send), {} rows, {:?}, {:?}", name, n, resp.len(), rows.len(), framing, end));
    let f = DirFile { name: name.into(), bytes: vec![], table: Some(Table { names: vec!["t".into(), "a".into()], types: vec![Ty::Str, Ty::Str], rows }), how: String::new() };
    let (d, served, u) = ask(s, Script { parts: vec![(resp, 0)], end, target: None, redirect: None }, &f.name)?;
    if served != 1 {
        return Err(format!("{} connections were made for {:?}", served, u));
    }
    expect(&f, &d, false)
}

fn c27_refused(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    // a port nobody listens on
    let l = TcpListener::bind("127.0.0.1:0").map_err(|e| format!("harness: {}", e))?;
    let port = l.local_addr().map_err(|e| format!("harness: {}", e))?.port();
    drop(l);
    let u = match s.below(4) {
        0 => format!("http://127.0.0.1:{}/x.csv", port),
        1 => format!("http://127.0.0.1:{}/x.dc.gz", port),
        2 => "http://".to_string(),
        _ => "http://256.1.1.1.invalid/x.csv".to_string(),
    };
    ctx.describe(|| u.clone());
    ctx.nontrivial = true;
    let c = cfg()?;
    let d = match guard(|| drain(open_with(c, None, None, &u, InputFormat::Auto))) {
        Err(p) => return Err(format!("crash: {}", p)),
        Ok(d) => d?,
    };
    if d.err.is_none() {
        return Err(format!("no error; columns {:?}, {} rows", d.names, d.rows.len()));
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C27",
        level: "exploration",
        rule: "serve: CSV and DC files, compressed or not, served by a loopback server with every body framing, chunk sizes, write splits and pauses, kept open or closed, rows compared with the model; same: valid and invalid contents by http and from a file of that name; fail: error statuses, bodies cut anywhere, resets, no or no http response; redirect: a response that points elsewhere, which gives the contents found there or an error; slow: pauses of 0.9-5 s (thorough: up to 35 s) before or within the response; large: bodies of 1-33 MB (thorough: up to 140 MB); refused: nobody listens; non-trivial: rows exist / something fails",
        assumptions: &["a body without announced length that is cut short cannot be told from a complete one", "https is not tried"],
        families: vec![
            Family { name: "serve", f: c27_serve, quick: 6_000, thorough: 200_000 },
            Family { name: "same", f: c27_same, quick: 3_000, thorough: 100_000 },
            Family { name: "fail", f: c27_fail, quick: 5_000, thorough: 150_000 },
            Family { name: "redirect", f: c27_redirect, quick: 1_500, thorough: 40_000 },
            Family { name: "slow", f: c27_slow, quick: 40, thorough: 300 },
            Family { name: "large", f: c27_large, quick: 32, thorough: 400 },
            Family { name: "refused", f: c27_refused, quick: 200, thorough: 2_000 },
        ],
    }]
}
