//! What the runs of each property concentrate on, and how many there are.
use crate::gen::Profile;

const BASE: Profile = Profile {
    clean: 15,
    std_list: true,
    ext_list: true,
    cut: 30,
    links: 35,
    handles: 0,
    pairs: 0,
    write_back: 0,
    relocate: 0,
    captures: 3,
    std_ids: &[],
    ext_ids: &[],
    damage: 0,
    alone: 0,
    polls: (0, 0),
    again: 0,
};

pub fn profile(prop: u8) -> Profile {
    let b = BASE;
    match prop {
        1 => Profile { cut: 45, links: 45, damage: 2, polls: (2, 48), ..b },
        2 => Profile { clean: 5, cut: 30, links: 85, captures: 4, ..b },
        3 => Profile { ext_list: false, links: 50, captures: 4, ..b },
        4 => Profile { std_list: false, links: 50, captures: 4, ..b },
        5 => Profile { clean: 0, cut: 95, links: 5, polls: (1, 48), ..b },
        6 => Profile { clean: 0, cut: 15, links: 20, pairs: 3, relocate: 4, damage: 6, ..b },
        7 => Profile { clean: 30, cut: 25, links: 25, handles: 60, captures: 2, ..b },
        8 => Profile { ext_list: false, std_list: false, cut: 20, links: 10, captures: 4, ..b },
        9 => Profile { std_list: false, cut: 10, links: 10, captures: 3, ext_ids: &[0x10], ..b },
        10 => Profile { ext_list: false, clean: 40, cut: 20, links: 10, polls: (1, 64), ..b },
        11 => Profile { std_list: false, clean: 40, cut: 20, links: 10, polls: (1, 20), ..b },
        12 => Profile {
            clean: 30,
            cut: 35,
            links: 10,
            std_ids: &[5, 9, 16, 20, 20, 20],
            ext_ids: &[2, 2, 5, 8, 8, 9, 0xb, 0xd, 0x10, 0x15, 0x16, 0x17, 0x19, 0x1a, 0x1d, 0x23, 0x24],
            polls: (1, 40),
            ..b
        },
        13 => Profile { clean: 40, cut: 10, links: 10, write_back: 3, polls: (1, 32), ..b },
        14 => Profile { clean: 0, cut: 10, links: 5, pairs: 4, damage: 8, polls: (12, 64), ..b },
        15 => Profile { clean: 20, cut: 20, links: 10, captures: 2, alone: 24, polls: (1, 64), ..b },
        16 => Profile { clean: 20, cut: 20, links: 25, captures: 4, again: 6, ..b },
        _ => b,
    }
}

pub fn title(prop: u8) -> Option<&'static str> {
    (1..=16).contains(&prop).then_some("")
}

/// Number of simulated runs.
pub fn runs(prop: u8, thorough: bool) -> u64 {
    let q = match prop {
        1 => 300_000,
        2 => 600_000,
        3 | 8 => 5_000_000,
        10 => 2_500_000,
        4 | 9 => 3_000_000,
        5 => 2_000_000,
        11 => 1_200_000,
        6 => 180_000,
        7 => 450_000,
        12 => 500_000,
        13 => 1_000_000,
        14 => 150_000,
        15 => 600_000,
        16 => 350_000,
        _ => 300_000,
    };
    if thorough { q * 30 } else { q }
}
