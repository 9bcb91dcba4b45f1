//! Names of class codes, as in the PCI ID database.
use std::sync::OnceLock;

type Row = ([Option<u8>; 3], &'static str, Option<&'static str>, Option<&'static str>);

fn table() -> &'static [Row] {
    static T: OnceLock<Vec<Row>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("classes.txt")
            .lines()
            .map(|l| {
                let f: Vec<&'static str> = l.split('|').collect();
                let k: Vec<Option<u8>> = f[0].split(' ').map(|x| u8::from_str_radix(x, 16).ok()).collect();
                let opt = |s: &'static str| (!s.is_empty()).then_some(s);
                ([k[0], k[1], k[2]], f[1], opt(f[2]), opt(f[3]))
            })
            .collect()
    })
}

/// All codes that have a name of their own.
pub fn named() -> Vec<[u8; 3]> {
    table().iter().map(|r| [r.0[2].unwrap_or(0), r.0[1].unwrap_or(0x77), r.0[0].unwrap_or(0x55)]).collect()
}

pub fn meaning(base: u8, sub: u8, interface: u8) -> (&'static str, Option<&'static str>, Option<&'static str>) {
    let hit = |p: Option<u8>, v: u8| p.map_or(true, |x| x == v);
    table()
        .iter()
        .find(|r| hit(r.0[0], base) && hit(r.0[1], sub) && hit(r.0[2], interface))
        .map(|r| (r.1, r.2, r.3))
        .unwrap_or(("Reserved", None, None))
}
