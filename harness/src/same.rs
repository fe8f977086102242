//! File comparison (machine TextEq).
use osu_file_parser::{assert_eq_osu_str, osu_str_eq, osu_str_trimmer};
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn check(x: &Value) -> Vec<(&'static str, String)> {
    let s = |k: &str| x[k].as_str().unwrap_or("");
    let (a, b, same, said) = (s("t"), s("b"), s("st") == "same", s("said"));
    let r = catch_unwind(|| {
        let mut bad = vec![];
        if osu_str_eq(a, b) != same {
            bad.push(("same", format!("{a:?} and {b:?} compare as {}", if same { "different" } else { "equal" })));
        }
        if osu_str_eq(b, a) != same {
            bad.push(("same", format!("{b:?} and {a:?} compare as {}", if same { "different" } else { "equal" })));
        }
        if !osu_str_eq(b, b) {
            bad.push(("same", format!("{b:?} differs from itself")));
        }
        if !osu_str_eq(b, said) {
            bad.push(("same", format!("{b:?} differs from {said:?}, which says the same")));
        }
        let t = osu_str_trimmer(b);
        if osu_str_trimmer(&t) != t {
            bad.push(("same", format!("trimming {t:?} again gives {:?}", osu_str_trimmer(&t))));
        }
        if !osu_str_eq(&t, b) {
            bad.push(("same", format!("{b:?} differs from what it is trimmed to, {t:?}")));
        }
        if t.lines().any(|l| l.trim().is_empty()) || t.contains('\u{feff}') {
            bad.push(("same", format!("{b:?} is trimmed to {t:?}")));
        }
        bad
    });
    let mut bad = r.unwrap_or(vec![("panic", "panic".to_string())]);
    // the assertion passes exactly on equal texts
    if catch_unwind(AssertUnwindSafe(|| assert_eq_osu_str(a, b))).is_ok() != same {
        bad.push(("same", format!("the assertion on {a:?} and {b:?} {}", if same { "fails" } else { "passes" })));
    }
    bad
}
