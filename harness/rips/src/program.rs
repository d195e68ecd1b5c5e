//! The command line tool, from its input to its output.
use crate::diagrams::{bars, lasting, Bar};
use crate::indices::*;
use hcore::dense::Arg;
use ordered_float::NotNan;
use vs::{check, observe, reach};

#[path = "/repo/phlite_rips/src/main.rs"]
#[allow(dead_code)]
mod tool;

/// The number between `from` and one of `to` in a line, as text.
fn between<'a>(line: &'a str, from: &str, to: &[char]) -> Option<&'a str> {
    let i = line.find(from)? + from.len();
    let j = line[i..].find(|c| to.contains(&c))? + i;
    Some(&line[i..j])
}

/// arg: points, maximal dimension (99: not given), levels, form of the numbers.
fn go(mut a: Arg) {
    let (n, top, levels, form) = (a.take() as usize, a.take() as usize, a.take(), a.take());
    let (before, after, scale) = [("", "", 1.0), ("0.0", "", 100.0), ("1.", "0", 10.0), ("", "e1", 0.1), ("1.0", "", 100.0), ("7.9", "", 100.0), ("16777210", "", 1.0), ("1.2345678901", "", 1e11)][form as usize % 10];
    let crlf = form >= 10;
    // any distances, as text
    let mut texts = vec![vec![b"0".to_vec(); n]; n];
    let mut d: Dist = vec![vec![NotNan::new(0.0).unwrap(); n]; n];
    for i in 0..n {
        for j in 0..i {
            let k = vs::range(0, levels - 1);
            let mut t = before.as_bytes().to_vec();
            t.push(b'0' + k as u8);
            t.extend_from_slice(after.as_bytes());
            texts[i][j] = t.clone();
            texts[j][i] = t;
            let x = k as f64;
            let x = match form % 10 {
                1 => x / scale,
                2 => (x + 10.0) / scale,
                3 => x * 10.0,
                4 => (x + 100.0) / scale,
                5 => (x + 790.0) / scale,
                6 => x + 167772100.0,
                7 => (x + 123456789010.0) / scale,
                _ => x,
            };
            d[i][j] = NotNan::new(x).unwrap();
            d[j][i] = d[i][j];
        }
    }
    let mut input = vec![];
    for i in 0..n {
        for j in 0..n {
            if j > 0 {
                input.push(b',');
            }
            input.extend_from_slice(&texts[i][j]);
        }
        if !crlf || i + 1 < n {
            input.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
        }
    }
    let dim = top.to_string();
    let out = if top == 99 { vs::program(&["tool"], &input, tool::main) } else { vs::program(&["tool", &dim], &input, tool::main) };
    let top = if top == 99 { 1 } else { top };
    let out = match std::str::from_utf8(&out) {
        Ok(s) => s,
        Err(_) => {
            check!(false, "the output is text");
            return;
        }
    };
    // what is printed
    let mut sizes = vec![];
    let mut got: Vec<Bar> = vec![];
    let mut section = 0;
    for line in out.lines() {
        let number = |s: Option<&str>| s.and_then(|s| s.parse::<f64>().ok()).and_then(|x| NotNan::new(x).ok());
        if line == "Essential:" || line == "Pairings:" {
            section += 1;
        } else if section == 0 && line.starts_with("Dimension ") {
            sizes.push((line["Dimension ".len()..].split(':').next().and_then(|s| s.parse().ok()), line.rsplit(' ').next().and_then(|s| s.parse().ok())));
        } else if let Some(q) = between(line, "dim=", &[',', ' ']) {
            let (b, e) = (number(between(line, "f=(", &[','])), line.rfind(", ").and_then(|i| line[i + 2..].strip_suffix(')')));
            let e = if e == Some("\u{221e}") { None } else { Some(number(e)) };
            match (q.parse(), b, e, section) {
                (Ok(q), Some(b), None, 1) => got.push((q, b, None)),
                (Ok(q), Some(b), Some(Some(e)), 2) => got.push((q, b, Some(e))),
                _ => check!(false, "a bar is printed in the section of its kind, with its dimension and values"),
            }
        } else {
            check!(line.is_empty() || line == "Basis sizes:", "nothing but sizes and bars is printed");
        }
    }
    // what should be
    check!(sizes.len() == top + 1, "the size of every dimension's basis is printed");
    for (q, x) in sizes.iter().enumerate() {
        check!(*x == (Some(q), Some(subsets(n, q + 1).len())), "the size of a basis is the number of simplices");
    }
    let mut want = lasting(bars(2, &d, top + 1), top);
    want.retain(|b| match b.2 {
        None => true,
        Some(e) => vs::fork(e.into_inner() - b.1.into_inner() > 0.01),
    });
    check!(got.len() == want.len(), "the number of bars printed is that of the filtration's long ones");
    let mut used = vec![false; want.len()];
    for x in &got {
        match (0..want.len()).find(|&i| !used[i] && want[i] == *x) {
            Some(i) => used[i] = true,
            None => check!(false, "a bar printed is one of the filtration's long ones"),
        }
        if x.2.is_some() && x.0 == 1 {
            reach!("rips program: a loop is printed");
        }
        if x.2.is_some() {
            reach!("rips program: a finite bar is printed");
        }
    }
    observe!("bars", got.len());
    reach!("rips program: end");
}

#[no_mangle]
pub extern "C" fn h_rips_program(arg: u64) {
    go(Arg(arg))
}
