//! Name grammars of the D-Bus specification, written by splitting into elements (the library
//! uses state machines).

fn letters(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
fn word(c: u8) -> bool {
    letters(c) || c.is_ascii_digit()
}

/// Interface and error names.
pub fn is_interface(s: &[u8]) -> bool {
    let e: Vec<&[u8]> = s.split(|c| *c == b'.').collect();
    s.len() <= 255
        && e.len() >= 2
        && e.iter().all(|e| !e.is_empty() && letters(e[0]) && e.iter().all(|c| word(*c)))
}
pub fn is_member(s: &[u8]) -> bool {
    !s.is_empty() && s.len() <= 255 && letters(s[0]) && s.iter().all(|c| word(*c))
}
pub fn is_unique(s: &[u8]) -> bool {
    if s.len() > 255 || s.first() != Some(&b':') {
        return false;
    }
    let e: Vec<&[u8]> = s[1..].split(|c| *c == b'.').collect();
    e.len() >= 2 && e.iter().all(|e| !e.is_empty() && e.iter().all(|c| word(*c) || *c == b'-'))
}
pub fn is_well_known(s: &[u8]) -> bool {
    let e: Vec<&[u8]> = s.split(|c| *c == b'.').collect();
    s.len() <= 255
        && e.len() >= 2
        && e.iter().all(|e| {
            !e.is_empty() && !e[0].is_ascii_digit() && e.iter().all(|c| word(*c) || *c == b'-')
        })
}
pub fn is_bus(s: &[u8]) -> bool {
    if s.first() == Some(&b':') { is_unique(s) } else { is_well_known(s) }
}
pub fn is_path(s: &[u8]) -> bool {
    if s == b"/" {
        return true;
    }
    if s.first() != Some(&b'/') {
        return false;
    }
    s[1..].split(|c| *c == b'/').all(|e| !e.is_empty() && e.iter().all(|c| word(*c)))
}
