//! Displays errors far from the start of a line and with long underlines.
//! Built with the newest toolchain, since limits of the standard library's
//! formatting have changed over time. Prints a line for each case: its name, a
//! tab, and `ok` or what is wrong.

use std::panic::{catch_unwind, AssertUnwindSafe};
use upon::{value, Engine, Error};

fn check(e: Error, name: &str, lines: usize, line: &str, col: usize, width: usize) -> String {
    let short = format!("{e}");
    let _ = format!("{e:?}").len() + format!("{e:#?}").len();
    let text = format!("{e:#}");
    let (head, reason) = short.split_once(": ").unwrap_or((&short, ""));
    let pad = " ".repeat(lines.to_string().len());
    let mark = "^".repeat(width) + &"-".repeat(3usize.saturating_sub(width));
    let exp = format!(
        "{head}\n\n {pad}--> {name}:{lines}:{}\n {pad} |\n {lines} | {line}\n {pad} | {}{mark}\n {pad} |\n {pad} = reason: {reason}\n",
        col + 1,
        " ".repeat(col)
    );
    if text == exp {
        "ok".into()
    } else {
        let i = text.bytes().zip(exp.bytes()).take_while(|(a, b)| a == b).count();
        format!("the text of the error differs from the expected one at byte {i} of {} and {}", text.len(), exp.len())
    }
}

/// An error at column `n`, of width `w`, on line `l`.
fn one(kind: &str, pad: char, n: usize, w: usize, l: usize) -> String {
    let cols = if pad == '世' { 2 } else { 1 };
    let pre: String = std::iter::repeat(pad).take(n).collect();
    let lead = "\n".repeat(l - 1);
    let long = "v".repeat(w);
    let name = "<anonymous>";
    match kind {
        "syntax" => {
            let line = format!("{pre}{{{{ \"{long}");
            match Engine::new().compile(format!("{lead}{line}")) {
                Ok(_) => "accepted".into(),
                Err(e) => check(e, name, l, &line, n * cols + 3, w + 1),
            }
        }
        "render" => {
            let line = format!("{pre}{{{{ {long} }}}} tail");
            let e = Engine::new();
            match e.compile(format!("{lead}{line}\nmore")) {
                Err(e) => format!("rejected: {e}"),
                Ok(t) => match t.render(&e, value! { x: 1 }).to_string() {
                    Ok(_) => "rendered".into(),
                    Err(e) => check(e, name, l, &line, n * cols + 3, w),
                },
            }
        }
        "include" => {
            let line = format!("{pre}{{% include \"{long}\" %}}");
            let mut e = Engine::new();
            match e.add_template("here", format!("{lead}{line}")) {
                Err(e) => format!("rejected: {e}"),
                Ok(_) => match e.template("here").render(value! { x: 1 }).to_string() {
                    Ok(_) => "rendered".into(),
                    Err(e) => check(e, "here", l, &line, n * cols + 11, w + 2),
                },
            }
        }
        _ => unreachable!(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for kind in ["syntax", "render", "include"] {
        for pad in ['a', '世', 'é'] {
            for n in [0, 1, 200, 255, 256, 4000, 32_767, 65_520, 65_532, 65_533, 65_534, 65_535, 65_536, 70_001, 200_000] {
                for (w, l) in [(1, 1), (2, 99_999), (300, 10), (65_534, 3), (65_536, 1), (131_072, 2)] {
                    if w > 2 && n > 2 && n != 65_520 {
                        continue;
                    }
                    let r = catch_unwind(AssertUnwindSafe(|| one(kind, pad, n, w, l))).unwrap_or_else(|p| {
                        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                        format!("panicked: {}", m.unwrap_or_default())
                    });
                    println!("{kind} {pad} x {n}, width {w}, line {l}\t{r}");
                }
            }
        }
    }
}
