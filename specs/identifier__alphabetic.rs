#![allow(dead_code, unused)]
use super::*;
use HungarianIdentifierChar as H;

pub fn try_from_char(value: char) -> Result<H> {
    let c = value.to_ascii_lowercase();
    if c >= 'a' && c <= 'z' {
        Ok(H::Latin(c as u8))
    } else {
        Err(anyhow::anyhow!("not a letter"))
    }
}

pub fn from_str(value: &str) -> Result<H> {
    if value.len() == 1 {
        return H::try_from(value.chars().next().unwrap());
    }
    match value {
        "cs" => Ok(H::Cs), "Cs" => Ok(H::Cs), "CS" => Ok(H::Cs),
        "dz" => Ok(H::Dz), "Dz" => Ok(H::Dz), "DZ" => Ok(H::Dz),
        "gy" => Ok(H::Gy), "Gy" => Ok(H::Gy), "GY" => Ok(H::Gy),
        "ly" => Ok(H::Ly), "Ly" => Ok(H::Ly), "LY" => Ok(H::Ly),
        "ny" => Ok(H::Ny), "Ny" => Ok(H::Ny), "NY" => Ok(H::Ny),
        "sz" => Ok(H::Sz), "Sz" => Ok(H::Sz), "SZ" => Ok(H::Sz),
        "ty" => Ok(H::Ty), "Ty" => Ok(H::Ty), "TY" => Ok(H::Ty),
        "zs" => Ok(H::Zs), "Zs" => Ok(H::Zs), "ZS" => Ok(H::Zs),
        _ => Err(anyhow::anyhow!("not a letter")),
    }
}

pub fn display(this: &H, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match this {
        H::Latin(c) => write!(f, "{}", *c as char),
        H::Cs => write!(f, "cs"),
        H::Dz => write!(f, "dz"),
        H::Gy => write!(f, "gy"),
        H::Ly => write!(f, "ly"),
        H::Ny => write!(f, "ny"),
        H::Sz => write!(f, "sz"),
        H::Ty => write!(f, "ty"),
        H::Zs => write!(f, "zs"),
    }
}

pub fn display_upper(this: &UppercaseHungarianIdentifierChar, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match this.0 {
        H::Latin(c) => write!(f, "{}", (c as char).to_uppercase()),
        H::Cs => write!(f, "CS"),
        H::Dz => write!(f, "DZ"),
        H::Gy => write!(f, "GY"),
        H::Ly => write!(f, "LY"),
        H::Ny => write!(f, "NY"),
        H::Sz => write!(f, "SZ"),
        H::Ty => write!(f, "TY"),
        H::Zs => write!(f, "ZS"),
    }
}

pub fn compact(this: &H, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    Display::fmt(this, f)
}

pub fn from_compact(s: impl AsRef<str>) -> Result<H> {
    s.as_ref().parse()
}

pub fn try_from(value: String) -> Result<H> {
    value.parse()
}

pub fn into_string(val: H) -> String {
    val.to_string()
}
