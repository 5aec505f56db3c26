use super::*;

pub fn quirks(c: char) -> char {
    if c == 'Õ' {
        return 'Ő';
    }
    if c == 'õ' {
        return 'ő';
    }
    if c == 'Û' {
        return 'Ű';
    }
    if c == 'û' {
        return 'ű';
    }
    c
}
