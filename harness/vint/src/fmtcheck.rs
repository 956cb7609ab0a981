//! C19: formatting.
use crate::*;
use std::fmt::Write;

/// Formats with one of several parameter sets; width and precision are chosen at run time.
macro_rules! shapes {
    ($($n:literal: $f:literal $k:ident $a:tt;)*) => {
        /// Writes `v` under shape `n`.
        fn put<V: std::fmt::Debug + std::fmt::Display>(out: &mut dyn Write, n: u8, v: &V, w: usize, p: usize) -> std::fmt::Result {
            let _ = (w, p);
            match n { $($n => shapes!(@ out, $f, v, w, p, $a),)* _ => unreachable!() }
        }
        const SHAPES: &[(bool, &str)] = &[$((shapes!(# $k), $f),)*];
    };
    (# dbg) => { true };
    (# dsp) => { false };
    (@ $o:ident, $f:literal, $v:ident, $w:ident, $p:ident, ()) => { write!($o, $f, $v) };
    (@ $o:ident, $f:literal, $v:ident, $w:ident, $p:ident, (w)) => { write!($o, $f, $v, w = $w) };
    (@ $o:ident, $f:literal, $v:ident, $w:ident, $p:ident, (p)) => { write!($o, $f, $v, p = $p) };
    (@ $o:ident, $f:literal, $v:ident, $w:ident, $p:ident, (wp)) => { write!($o, $f, $v, w = $w, p = $p) };
}
shapes! {
    0: "{:?}" dbg ();
    1: "{:#?}" dbg ();
    2: "{:w$?}" dbg (w);
    3: "{:<w$?}" dbg (w);
    4: "{:*^w$?}" dbg (w);
    5: "{:>w$.p$?}" dbg (wp);
    6: "{:.p$?}" dbg (p);
    7: "{:+?}" dbg ();
    8: "{:0w$?}" dbg (w);
    9: "{:x?}" dbg ();
    10: "{:X?}" dbg ();
    11: "{:#x?}" dbg ();
    12: "{:#.p$?}" dbg (p);
    13: "{}" dsp ();
    14: "{:w$}" dsp (w);
    15: "{:<w$}" dsp (w);
    16: "{:_^w$}" dsp (w);
    17: "{:>w$.p$}" dsp (wp);
    18: "{:.p$}" dsp (p);
    19: "{:+}" dsp ();
    20: "{:-w$}" dsp (w);
    21: "{:#}" dsp ();
    22: "{:0w$}" dsp (w);
    23: "{:#w$?}" dbg (w);
    24: "{:é>w$}" dsp (w);
}

/// A sink that fails from some byte on, or once at some write.
struct Sink {
    text: String,
    limit: Option<usize>,
    once: Option<usize>,
    writes: usize,
    failed: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.writes += 1;
        if self.once == Some(self.writes - 1) {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        if let Some(l) = self.limit {
            if self.text.len() + s.len() > l {
                self.failed = true;
                return Err(std::fmt::Error);
            }
        }
        self.text.push_str(s);
        Ok(())
    }
}

pub fn run<T: Subject>(c: &FmtCase, cov: &mut Cov) -> R {
    no_panic("formatting", || inner::<T>(c, cov))?
}
fn inner<T: Subject>(c: &FmtCase, cov: &mut Cov) -> R {
    let (s, m) = set_of::<T>(&c.set);
    let n = c.shape % SHAPES.len() as u8;
    let (debug, spec) = SHAPES[n as usize];
    let (w, p) = (c.width as usize % 24, c.prec as usize % 8);
    // the oracle: each variant under the same parameters
    let mut parts = Vec::new();
    for d in &m {
        let mut t = String::new();
        put(&mut t, n, &T::from_d(*d).unwrap(), w, p).map_err(|e| e.to_string())?;
        parts.push(t);
    }
    let body = parts.join(" | ");
    let expected = if debug { format!("EnumSet({})", body) } else { body };
    cov.nontrivial = m.len() >= 2;
    cov.label(if debug { "debug" } else { "display" });
    if spec.contains('w') && parts.iter().any(|x| x.contains("  ") || x.contains('*') || x.contains('_')) {
        cov.label("padded");
    }
    let mut t = String::new();
    let r = put(&mut t, n, &s, w, p);
    ensure!(r.is_ok() && t == expected, "{} under {} (w {}, p {}): {:?} {:?}, expected {:?}", show(&m), spec, w, p, r, t, expected);
    if debug && !parts.iter().any(|x| x.contains('\n')) {
        ensure!(!t.contains('\n'), "{} under {}: several lines", show(&m), spec);
    }
    // to_string and friends
    ensure!(format!("{}", s) == s.to_string(), "to_string");
    // inside something else
    if c.nested {
        cov.label("nested");
        let plain = format!("{:?}", s);
        ensure!(format!("{:?}", Some(s)) == format!("Some({})", plain), "{:?}", Some(s));
        let v = vec![s, s];
        ensure!(format!("{:?}", v) == format!("[{}, {}]", plain, plain), "{:?}", v);
        let pretty = format!("{:#?}", s);
        let e = format!("Some(\n    {},\n)", pretty.replace('\n', "\n    "));
        ensure!(format!("{:#?}", Some(s)) == e, "pretty nested: {:?}, expected {:?}", format!("{:#?}", Some(s)), e);
        // how the iterator prints is not specified, but it must print
        let _ = format!("{:?}", s.iter());
    }
    // errors of the sink are passed on
    if let Some(l) = c.fail_at {
        let l = l as usize % (expected.len() + 2);
        let mut k = Sink { text: String::new(), limit: Some(l), once: None, writes: 0, failed: false };
        let r = put(&mut k, n, &s, w, p);
        ensure!(r.is_err() == k.failed, "{} under {}: sink failing after {} bytes: result {:?}, sink failed: {}", show(&m), spec, l, r, k.failed);
        ensure!(k.failed == (l < expected.len()), "{} under {}: sink with room for {} of {} bytes failed: {}", show(&m), spec, l, expected.len(), k.failed);
        ensure!(expected.starts_with(&k.text), "{} under {}: wrote {:?}, not a prefix of {:?}", show(&m), spec, k.text, expected);
        cov.label("sink fails");
    }
    if let Some(o) = c.fail_once {
        let mut k = Sink { text: String::new(), limit: None, once: None, writes: 0, failed: false };
        let _ = put(&mut k, n, &s, w, p);
        let total = k.writes;
        if total > 0 {
            let at = o as usize % total;
            let mut k = Sink { text: String::new(), limit: None, once: Some(at), writes: 0, failed: false };
            let r = put(&mut k, n, &s, w, p);
            ensure!(r.is_err(), "{} under {}: error of write {} of {} was swallowed", show(&m), spec, at, total);
            ensure!(k.writes == at + 1, "{} under {}: went on writing after the error of write {}", show(&m), spec, at);
            cov.label("sink fails once");
        }
    }
    Ok(())
}
