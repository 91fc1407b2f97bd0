//! Known findings are listed in /verif/known_findings.txt, one per line:
//!   KNOWN property=<id> sig=<exact signature> <what fails>
//!   fixed: property=<id> <commit> <what failed>          (suppresses nothing)

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub text: String,
}

pub fn parse(text: &str) -> Vec<Known> {
    let mut out = Vec::new();
    for line in text.lines() {
        let line = line.trim();
        if !line.starts_with("KNOWN ") {
            continue;
        }
        let mut it = line.splitn(4, ' ');
        it.next();
        let prop = it.next().unwrap_or("").trim_start_matches("property=").to_string();
        let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
        let text = it.next().unwrap_or("").to_string();
        if !prop.is_empty() && !sig.is_empty() {
            out.push(Known { prop, sig, text });
        }
    }
    out
}
