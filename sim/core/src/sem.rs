// generated by gen.py
pub fn sem(pos: u8, kind: u8) -> &'static [u16] {
    match (pos, kind) {
        (0, 5) => &[1, 0],
        (0, 6) => &[512, 36, 1],
        (0, 7) => &[2, 2, 514, 0, 36],
        (0, 8) => &[36],
        (0, 9) => &[36, 514],
        (0, 10) => &[36, 36, 2, 512],
        (0, 11) => &[512, 514],
        (0, 12) => &[512, 32, 32],
        (0, 13) => &[0, 32, 36, 0],
        (0, 14) => &[0, 36, 0, 0, 32, 0],
        (0, 31) => &[512, 2, 0, 1, 0, 32, 514, 514],
        (0, 32) => &[32, 2, 36, 1, 1, 0, 514],
        (0, 33) => &[32, 2, 32, 32, 0, 0, 0, 1],
        (0, 34) => &[2, 512, 514, 0, 512, 514, 36, 32, 512, 0, 0],
        (1, 4) => &[36],
        (1, 5) => &[512, 0],
        (1, 6) => &[512, 1, 32],
        (1, 7) => &[2, 32, 2, 0, 2],
        (1, 8) => &[1],
        (1, 9) => &[512, 36],
        (1, 10) => &[36, 36, 32, 512],
        (1, 11) => &[1, 36],
        (1, 12) => &[512, 1, 0],
        (1, 13) => &[0, 1, 514, 0],
        (1, 14) => &[514, 0, 32, 0, 2, 512],
        (1, 31) => &[32, 512, 0, 0, 0, 2, 36, 0],
        (1, 32) => &[0, 2, 0, 0, 0, 0, 0],
        (1, 33) => &[1, 1, 512, 512, 32, 1, 514, 32],
        (1, 34) => &[36, 1, 0, 512, 36, 0, 0, 36, 0, 32, 1],
        (2, 5) => &[1, 1],
        (2, 6) => &[1, 2, 2],
        (2, 7) => &[2, 2, 32, 0, 1],
        (2, 9) => &[0, 32],
        (2, 10) => &[0, 0, 32, 514],
        (2, 11) => &[1, 1],
        (2, 12) => &[512, 2, 0],
        (2, 13) => &[0, 0, 36, 0],
        (2, 14) => &[0, 36, 32, 2, 1, 512],
        (2, 31) => &[0, 36, 0, 2, 2, 2, 0, 0],
        (2, 32) => &[36, 0, 32, 512, 0, 2, 32],
        (2, 33) => &[32, 512, 514, 0, 512, 32, 36, 512],
        (2, 34) => &[0, 0, 0, 32, 1, 36, 0, 0, 36, 0, 512],
        (3, 4) => &[512],
        (3, 5) => &[512, 36],
        (3, 6) => &[36, 2, 514],
        (3, 7) => &[512, 0, 0, 32, 0],
        (3, 8) => &[36],
        (3, 9) => &[514, 32],
        (3, 10) => &[0, 32, 0, 514],
        (3, 12) => &[0, 514, 514],
        (3, 13) => &[32, 0, 36, 0],
        (3, 14) => &[1, 0, 0, 0, 32, 514],
        (3, 31) => &[512, 0, 0, 0, 36, 0, 0, 514],
        (3, 32) => &[0, 1, 36, 0, 36, 0, 0],
        (3, 33) => &[512, 2, 0, 36, 0, 32, 36, 0],
        (3, 34) => &[32, 0, 1, 0, 1, 0, 0, 512, 512, 0, 514],
        (4, 4) => &[36],
        (4, 5) => &[36, 514],
        (4, 6) => &[2, 0, 32],
        (4, 7) => &[32, 36, 514, 0, 32],
        (4, 9) => &[36, 0],
        (4, 10) => &[514, 32, 36, 0],
        (4, 11) => &[514, 0],
        (4, 12) => &[36, 32, 32],
        (4, 13) => &[2, 0, 1, 32],
        (4, 14) => &[0, 0, 512, 514, 36, 514],
        (4, 31) => &[514, 1, 0, 1, 0, 0, 0, 1],
        (4, 32) => &[0, 0, 0, 36, 36, 514, 514],
        (4, 33) => &[0, 0, 0, 0, 2, 32, 0, 0],
        (4, 34) => &[36, 0, 32, 0, 0, 2, 0, 512, 32, 2, 36],
        (5, 5) => &[1, 512],
        (5, 6) => &[1, 36, 0],
        (5, 7) => &[2, 512, 0, 0, 514],
        (5, 8) => &[1],
        (5, 9) => &[0, 2],
        (5, 10) => &[0, 512, 0, 0],
        (5, 11) => &[32, 0],
        (5, 12) => &[36, 2, 512],
        (5, 13) => &[0, 2, 514, 0],
        (5, 14) => &[0, 0, 36, 1, 36, 2],
        (5, 31) => &[512, 0, 512, 512, 512, 0, 1, 1],
        (5, 32) => &[0, 1, 0, 512, 1, 0, 0],
        (5, 33) => &[36, 514, 512, 1, 514, 514, 2, 0],
        (5, 34) => &[0, 0, 512, 0, 2, 36, 2, 2, 514, 2, 32],
        (6, 4) => &[32],
        (6, 5) => &[0, 1],
        (6, 6) => &[0, 0, 36],
        (6, 7) => &[0, 36, 1, 0, 32],
        (6, 9) => &[2, 36],
        (6, 10) => &[36, 0, 36, 0],
        (6, 11) => &[512, 1],
        (6, 12) => &[36, 512, 32],
        (6, 13) => &[1, 0, 514, 36],
        (6, 14) => &[514, 2, 0, 0, 0, 32],
        (6, 31) => &[0, 0, 512, 0, 0, 32, 0, 0],
        (6, 32) => &[2, 1, 36, 1, 0, 32, 514],
        (6, 33) => &[1, 0, 512, 2, 0, 0, 2, 0],
        (6, 34) => &[514, 2, 2, 512, 36, 0, 2, 32, 514, 2, 32],
        (7, 4) => &[2],
        (7, 5) => &[0, 32],
        (7, 6) => &[514, 36, 514],
        (7, 7) => &[36, 1, 2, 514, 514],
        (7, 8) => &[36],
        (7, 9) => &[0, 36],
        (7, 10) => &[0, 2, 512, 32],
        (7, 11) => &[32, 514],
        (7, 12) => &[514, 0, 512],
        (7, 13) => &[514, 1, 0, 32],
        (7, 14) => &[1, 2, 32, 0, 0, 0],
        (7, 31) => &[0, 0, 32, 0, 512, 32, 0, 512],
        (7, 32) => &[514, 32, 32, 512, 0, 0, 512],
        (7, 33) => &[36, 1, 32, 514, 514, 36, 1, 0],
        (7, 34) => &[0, 514, 514, 36, 0, 36, 2, 0, 32, 514, 0],
        (8, 4) => &[1],
        (8, 5) => &[32, 512],
        (8, 6) => &[32, 2, 512],
        (8, 7) => &[0, 514, 0, 1, 1],
        (8, 8) => &[32],
        (8, 9) => &[512, 1],
        (8, 10) => &[514, 0, 32, 36],
        (8, 11) => &[0, 2],
        (8, 12) => &[512, 2, 0],
        (8, 13) => &[0, 0, 2, 514],
        (8, 14) => &[36, 0, 32, 36, 514, 32],
        (8, 31) => &[0, 0, 0, 32, 1, 2, 0, 36],
        (8, 32) => &[2, 36, 0, 32, 0, 0, 36],
        (8, 33) => &[514, 0, 36, 2, 32, 512, 514, 0],
        (8, 34) => &[32, 2, 32, 0, 514, 0, 0, 512, 0, 512, 512],
        (9, 4) => &[514],
        (9, 5) => &[0, 512],
        (9, 6) => &[2, 514, 0],
        (9, 7) => &[514, 0, 0, 512, 0],
        (9, 8) => &[514],
        (9, 9) => &[32, 1],
        (9, 10) => &[32, 514, 0, 0],
        (9, 11) => &[1, 0],
        (9, 12) => &[0, 0, 1],
        (9, 13) => &[0, 2, 32, 0],
        (9, 14) => &[514, 512, 2, 512, 0, 1],
        (9, 31) => &[1, 1, 0, 32, 36, 32, 0, 2],
        (9, 32) => &[1, 36, 32, 512, 0, 0, 514],
        (9, 33) => &[512, 32, 1, 514, 32, 514, 514, 32],
        (9, 34) => &[36, 36, 512, 2, 0, 2, 512, 36, 0, 0, 0],
        (10, 5) => &[2, 2],
        (10, 6) => &[1, 2, 32],
        (10, 7) => &[514, 512, 1, 32, 514],
        (10, 9) => &[32, 2],
        (10, 10) => &[0, 2, 512, 514],
        (10, 11) => &[512, 1],
        (10, 12) => &[514, 0, 2],
        (10, 13) => &[0, 514, 36, 32],
        (10, 14) => &[0, 32, 0, 1, 36, 32],
        (10, 31) => &[0, 0, 0, 514, 0, 514, 36, 32],
        (10, 32) => &[0, 1, 512, 512, 36, 0, 0],
        (10, 33) => &[512, 0, 2, 2, 2, 514, 0, 32],
        (10, 34) => &[512, 512, 32, 2, 514, 0, 514, 512, 32, 2, 36],
        (11, 6) => &[2, 512, 512],
        (11, 7) => &[514, 1, 2, 0, 36],
        (11, 9) => &[512, 2],
        (11, 10) => &[0, 512, 36, 1],
        (11, 11) => &[0, 514],
        (11, 12) => &[0, 514, 514],
        (11, 13) => &[512, 1, 0, 2],
        (11, 14) => &[0, 36, 2, 0, 0, 512],
        (11, 31) => &[32, 0, 512, 0, 36, 36, 32, 0],
        (11, 32) => &[514, 36, 514, 514, 1, 0, 1],
        (11, 33) => &[2, 0, 1, 32, 0, 0, 0, 0],
        (11, 34) => &[0, 1, 1, 36, 32, 2, 514, 32, 0, 36, 1],
        _ => &[0; 11],
    }
}
pub fn root_sem(root: usize) -> &'static [u16] {
    match root {
        0 => &[0],
        1 => &[32],
        2 => &[0, 2],
        3 => &[512, 34],
        _ => unreachable!(),
    }
}

/// What `Parse` must hold for a captured text.
pub fn parse_expect(kind: u8, text: &str) -> String {
    if crate::gram::KINDS[kind as usize].0 == "parse_u32" {
        format!("{:?}", text.parse::<u32>())
    } else {
        sim_val(text)
    }
}
/// The value the harness' own `FromStr` type makes of a text.
pub fn sim_val(text: &str) -> String {
    if text.len() % 3 == 2 {
        format!("Err({text})")
    } else {
        format!("Ok({}:{:x})", text.len(), crate::rng::hash_bytes(7, text.as_bytes()))
    }
}
