//! Damaged and foreign clipboard texts.
use serde_json::{json, Value};

fn at(n: usize, x: u32) -> usize { if n == 0 { 0 } else { x as usize % n } }

/// Positions of the numbers in a text (start, end).
fn numbers(s: &str) -> Vec<(usize, usize)> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() || (b[i] == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let st = i;
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() { i += 1; }
            v.push((st, i));
        } else { i += 1; }
    }
    v
}

/// Positions of the quoted words.
fn words(s: &str) -> Vec<(usize, usize)> {
    let q: Vec<usize> = s.char_indices().filter(|c| c.1 == '"').map(|c| c.0).collect();
    q.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1] + 1)).collect()
}

/// What a text of another format version starts with.
const VERSIONS: [&str; 26] = ["2", "0", "11", "1.5", "-1", "\"1\"", "null", "10", "true", "[1]", "257", "65537", "4294967297", "129",
    "18446744073709551615", "18446744073709551617", "3", "1.0", "1e0", "-255", "513", "255", "{\"version\":1}", "[]", "\"\"", "1 2"];

/// Every place in a document, with the indices of arrays left out of its name.
fn places(v: &Value, at: &mut Vec<String>, name: &str, out: &mut Vec<(String, Vec<String>)>) {
    out.push((name.to_string(), at.clone()));
    match v {
        Value::Array(a) => for (i, x) in a.iter().enumerate() { at.push(i.to_string()); places(x, at, &format!("{name}/*"), out); at.pop(); },
        Value::Object(o) => for (k, x) in o { at.push(k.clone()); places(x, at, &format!("{name}/{k}"), out); at.pop(); },
        _ => {}
    }
}

/// Choose a place: first what kind of place, then which of that kind.
fn choose(all: &[(String, Vec<String>)], x: u32) -> Vec<String> {
    let mut names: Vec<&String> = all.iter().map(|p| &p.0).collect();
    names.sort();
    names.dedup();
    let name = names[at(names.len(), x)];
    let of: Vec<&Vec<String>> = all.iter().filter(|p| p.0 == *name).map(|p| &p.1).collect();
    of[at(of.len(), x / 7919)].clone()
}

fn get<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> { v.pointer_mut(&path.iter().map(|p| format!("/{p}")).collect::<String>()) }

/// Alter the document as such: one place gets another value, two places are swapped, something is left out or twice there.
fn structured(s: &str, kind: u8, a: u32, b: u32) -> (String, bool) {
    let Ok(mut v) = serde_json::from_str::<Value>(&s[1..]) else { return (String::new(), true) };
    let mut all = vec![];
    places(&v, &mut vec![], "", &mut all);
    let p = choose(&all, a);
    match kind % 16 {
        12 | 13 => {
            if let Some(x) = get(&mut v, &p) {
                let y = match x {
                    Value::Number(_) => [json!(0), json!(-1), json!(1), json!(2), json!(7), json!(8), json!(15), json!(16), json!(99), json!(100), json!(127), json!(128), json!(200),
                        json!(255), json!(256), json!(999), json!(1000), json!(2000), json!(2001), json!(32767), json!(32768), json!(-32768), json!(-32769), json!(65535), json!(65536),
                        json!(4294967295u64), json!(4294967296u64), json!(-8), json!(u64::MAX), json!(1.5)][at(30, b)].clone(),
                    Value::String(_) => [json!("C"), json!("B"), json!("OctM2"), json!("Oct8"), json!("DoubleFlat"), json!("DoubleSharp"), json!("Flat"), json!("Null"), json!("Whole"), json!("N128th"),
                        json!("D64"), json!("D2"), json!(""), json!(0), json!(null), json!("Quarter")][at(16, b)].clone(),
                    Value::Bool(t) => [json!(!*t), json!(0), json!(null), json!("true")][at(4, b)].clone(),
                    Value::Null => [json!(0), json!({}), json!([]), json!("C"), json!({"value": 255}), json!({"numerator": 0, "denominator": "D4"})][at(6, b)].clone(),
                    Value::Array(_) => [json!([]), json!(null), json!({}), json!([null]), json!([0, 0, 0]), json!([0, 0, 0, 0, 0])][at(6, b)].clone(),
                    Value::Object(_) => [json!(null), json!({}), json!([]), json!(0), json!("")][at(5, b)].clone(),
                };
                *x = y;
            }
        }
        14 => {
            let q = choose(&all, b);
            let (x, y) = (get(&mut v, &p).map(|x| x.clone()), get(&mut v, &q).map(|x| x.clone()));
            if let (Some(x), Some(y)) = (x, y) {
                if let Some(t) = get(&mut v, &q) { *t = x; }
                if let Some(t) = get(&mut v, &p) { *t = y; }
            }
        }
        _ => {
            let Some(last) = p.last().cloned() else { return (s.to_string() + "{}", false) };
            match get(&mut v, &p[..p.len() - 1]) {
                Some(Value::Array(x)) => { let i: usize = last.parse().unwrap_or(0); if b % 2 == 0 { x.remove(i); } else { let e = x[i].clone(); x.push(e); } }
                Some(Value::Object(o)) => { if b % 2 == 0 { o.remove(&last); } else if let Some(e) = o.get(&last).cloned() { o.insert(format!("{last}x"), e); } }
                _ => {}
            }
        }
    }
    (format!("1{v}"), false)
}

/// Alter a text. The flag tells that it must be rejected; otherwise it must be rejected or yield valid music.
pub fn alter(s: &str, kind: u8, a: u32, b: u32) -> (String, bool) {
    let n = s.len();
    match kind % 16 {
        0 => (s[..at(n, a)].to_string(), true),
        1 => (format!("{}{}", VERSIONS[at(VERSIONS.len(), a)], &s[1..]), true),
        2 => (s[1..].to_string(), true),
        3 => {
            let mut v: Vec<char> = s.chars().collect();
            let i = at(v.len(), a);
            v[i] = ['0', '9', '-', '"', '{', '}', ',', ':', 'x', ' ', '[', ']', '.', 'e', '\\', '\u{e9}'][at(16, b)];
            (v.into_iter().collect(), false)
        }
        4 => { let i = at(n, a); (format!("{}{}", &s[..i], &s[i + 1..]), false) }
        5 => {
            let i = at(n, a);
            let e = (i + 1 + at(60, b)).min(n);
            (format!("{}{}{}", &s[..e], &s[i..e], &s[e..]), false)
        }
        6 => { let i = at(n + 1, a); (format!("{}{}{}", &s[..i], ["0", "-", ",", "\"", "null", "{}", "1e9", " "][at(8, b)], &s[i..]), false) }
        7 => {
            let v = numbers(&s[1..]);
            if v.is_empty() { return (String::new(), true); }
            let (x, y) = v[at(v.len(), a)];
            let e = ["0", "-1", "1", "7", "8", "15", "16", "99", "100", "127", "128", "255", "256", "2000", "2001", "32767", "32768", "-32768", "65535",
                "65536", "4294967295", "4294967296", "-8", "-9", "18446744073709551615", "1.5", "1e3", "null", "3", "250"][at(30, b)];
            (format!("{}{}{}", &s[..1 + x], e, &s[1 + y..]), false)
        }
        8 => {
            let v = words(s);
            if v.len() < 2 { return (String::new(), true); }
            let (i, j) = (at(v.len(), a), at(v.len(), b));
            let (i, j) = (i.min(j), i.max(j));
            if i == j { return (s.to_string() + "x", false); }
            (format!("{}{}{}{}{}", &s[..v[i].0], &s[v[j].0..v[j].1], &s[v[i].1..v[j].0], &s[v[i].0..v[i].1], &s[v[j].1..]), false)
        }
        9 => { let (i, j) = (at(n, a), at(n, b)); (format!("{}{}", &s[..i], &s[j..]), false) }
        10 => {
            // Drop a whole field.
            let v: Vec<usize> = s.char_indices().filter(|c| c.1 == ',').map(|c| c.0).collect();
            if v.len() < 2 { return (String::new(), true); }
            let i = at(v.len() - 1, a);
            (format!("{}{}", &s[..v[i]], &s[v[i + 1]..]), false)
        }
        12..=15 => structured(s, kind, a, b),
        _ => {
            // Replace a word by a name that means something elsewhere.
            let v = words(s);
            if v.is_empty() { return (String::new(), true); }
            let (x, y) = v[at(v.len(), a)];
            let w = ["\"DoubleFlat\"", "\"DoubleSharp\"", "\"OctM2\"", "\"Oct8\"", "\"C\"", "\"B\"", "\"Flat\"", "\"G\"", "\"A\"", "\"Null\"", "\"N128th\"", "\"Whole\"", "\"D64\"", "\"value\"", "\"values\"", "\"\""][at(16, b)];
            (format!("{}{}{}", &s[..x], w, &s[y..]), false)
        }
    }
}
