//! P13: numbers decoded from messages and files.
use crate::rt::*;
use siderust::formats::adsb::cpr::*;
use siderust::formats::adsb::*;
use siderust::formats::tle::*;
use siderust::formats::iers::eop::{interpolate, read_eop_c04, EopRecord, EopValues};
use siderust::formats::igs::sp3::read_sp3;
use siderust::formats::ilrs::cpf::parse_cpf;
use siderust::qtty::angular::{Arcseconds, MilliArcseconds};
use siderust::qtty::time::Seconds;
use siderust::qtty::time::Days as Day;
use tempoch::ModifiedJulianDate;

const ZONES: [(i64, i64, i64, i64, i64, i64); 170] = [
    (59, 0, 0, 0, 2, 2181), (59, 1, 0, 128887, 2, 34), (59, 1, 1, -2185, 39, 1624), (58, 1, 1, -2185, 1630, 2181), (58, 2, 1, 126703, 2, 71), (58, 2, 2, -4369, 76, 1026),
    (57, 2, 2, -4369, 1032, 2181), (57, 3, 2, 124518, 2, 64), (56, 3, 2, 124518, 70, 108), (56, 3, 3, -6554, 113, 1100), (55, 3, 3, -6554, 1105, 2016), (54, 3, 3, -6554, 2021, 2181),
    (54, 4, 3, 122334, 2, 145), (54, 4, 4, -8738, 150, 663), (53, 4, 4, -8738, 668, 1431), (52, 4, 4, -8738, 1436, 2149), (51, 4, 4, -8738, 2155, 2181), (51, 5, 4, 120149, 2, 182),
    (51, 5, 5, -10923, 187, 642), (50, 5, 5, -10923, 648, 1286), (49, 5, 5, -10923, 1291, 1900), (48, 5, 5, -10923, 1906, 2181), (48, 6, 5, 117965, 2, 219), (48, 6, 6, -13107, 224, 306),
    (47, 6, 6, -13107, 312, 875), (46, 6, 6, -13107, 881, 1425), (45, 6, 6, -13107, 1430, 1958), (44, 6, 6, -13107, 1963, 2181), (44, 7, 6, 115780, 2, 256), (44, 7, 7, -15292, 262, 291),
    (43, 7, 7, -15292, 297, 796), (42, 7, 7, -15292, 801, 1288), (41, 7, 7, -15292, 1293, 1769), (40, 7, 7, -15292, 1774, 2181), (40, 8, 7, 113596, 2, 55), (39, 8, 7, 113596, 61, 293),
    (39, 8, 8, -17476, 299, 517), (38, 8, 8, -17476, 522, 969), (37, 8, 8, -17476, 975, 1414), (36, 8, 8, -17476, 1420, 1852), (35, 8, 8, -17476, 1857, 2181), (35, 9, 8, 111411, 2, 98),
    (34, 9, 8, 111411, 104, 330), (34, 9, 9, -19661, 336, 522), (33, 9, 9, -19661, 528, 941), (32, 9, 9, -19661, 946, 1354), (31, 9, 9, -19661, 1359, 1762), (30, 9, 9, -19661, 1767, 2165),
    (29, 9, 9, -19661, 2170, 2181), (29, 10, 9, 109227, 2, 367), (29, 10, 10, -21845, 373, 379), (28, 10, 10, -21845, 384, 773), (27, 10, 10, -21845, 779, 1163), (26, 10, 10, -21845, 1169, 1550),
    (25, 10, 10, -21845, 1556, 1933), (24, 10, 10, -21845, 1939, 2181), (24, 11, 10, 107042, 2, 128), (23, 11, 10, 107042, 134, 404), (23, 11, 11, -24030, 410, 505), (22, 11, 11, -24030, 511, 879),
    (21, 11, 11, -24030, 885, 1250), (20, 11, 11, -24030, 1256, 1619), (19, 11, 11, -24030, 1624, 1985), (18, 11, 11, -24030, 1990, 2181), (18, 12, 11, 104858, 2, 164), (17, 12, 11, 104858, 169, 441),
    (17, 12, 12, -26214, 447, 525), (16, 12, 12, -26214, 531, 885), (15, 12, 12, -26214, 890, 1242), (14, 12, 12, -26214, 1248, 1598), (13, 12, 12, -26214, 1603, 1951), (12, 12, 12, -26214, 1957, 2181),
    (12, 13, 12, 102673, 2, 118), (11, 13, 12, 102673, 124, 468), (10, 13, 13, -28399, 484, 816), (9, 13, 13, -28399, 821, 1161), (8, 13, 13, -28399, 1167, 1504), (7, 13, 13, -28399, 1509, 1843),
    (6, 13, 13, -28399, 1849, 2178), (5, 14, 13, 100489, 2, 321), (4, 14, 13, 100489, 327, 515), (4, 14, 14, -30583, 521, 636), (3, 14, 14, -30583, 641, 920), (2, 14, 14, -30583, 925, 1089),
    (1, 14, 14, -30583, 1095, 2181), (1, -15, -15, 32768, 2, 1089), (2, -15, -15, 32768, 1095, 1258), (3, -15, -15, 32768, 1264, 1542), (4, -15, -15, 32768, 1548, 1663), (4, -15, -14, -98304, 1668, 1857),
    (5, -15, -14, -98304, 1862, 2181), (6, -14, -14, 30583, 5, 335), (7, -14, -14, 30583, 340, 674), (8, -14, -14, 30583, 680, 1017), (9, -14, -14, 30583, 1022, 1362), (10, -14, -14, 30583, 1368, 1700),
    (11, -14, -13, -100489, 1716, 2060), (12, -14, -13, -100489, 2065, 2181), (12, -13, -13, 28399, 2, 227), (13, -13, -13, 28399, 232, 580), (14, -13, -13, 28399, 586, 936), (15, -13, -13, 28399, 941, 1293),
    (16, -13, -13, 28399, 1299, 1653), (17, -13, -13, 28399, 1658, 1737), (17, -13, -12, -102673, 1743, 2014), (18, -13, -12, -102673, 2020, 2181), (18, -12, -12, 26214, 2, 193), (19, -12, -12, 26214, 199, 559),
    (20, -12, -12, 26214, 565, 928), (21, -12, -12, 26214, 934, 1299), (22, -12, -12, 26214, 1305, 1673), (23, -12, -12, 26214, 1678, 1774), (23, -12, -11, -104858, 1780, 2050), (24, -12, -11, -104858, 2055, 2181),
    (24, -11, -11, 24030, 2, 245), (25, -11, -11, 24030, 250, 628), (26, -11, -11, 24030, 634, 1015), (27, -11, -11, 24030, 1020, 1405), (28, -11, -11, 24030, 1411, 1799), (29, -11, -11, 24030, 1805, 1811),
    (29, -11, -10, -107042, 1817, 2181), (29, -10, -10, 21845, 2, 13), (30, -10, -10, 21845, 19, 416), (31, -10, -10, 21845, 422, 824), (32, -10, -10, 21845, 830, 1237), (33, -10, -10, 21845, 1243, 1656),
    (34, -10, -10, 21845, 1661, 1848), (34, -10, -9, -109227, 1854, 2080), (35, -10, -9, -109227, 2086, 2181), (35, -9, -9, 19661, 2, 326), (36, -9, -9, 19661, 332, 764), (37, -9, -9, 19661, 769, 1209),
    (38, -9, -9, 19661, 1214, 1661), (39, -9, -9, 19661, 1667, 1885), (39, -9, -8, -111411, 1891, 2123), (40, -9, -8, -111411, 2128, 2181), (40, -8, -8, 17476, 2, 409), (41, -8, -8, 17476, 415, 890),
    (42, -8, -8, 17476, 896, 1382), (43, -8, -8, 17476, 1388, 1887), (44, -8, -8, 17476, 1892, 1922), (44, -8, -7, -113596, 1928, 2181), (44, -7, -7, 15292, 2, 220), (45, -7, -7, 15292, 226, 753),
    (46, -7, -7, 15292, 759, 1303), (47, -7, -7, 15292, 1309, 1872), (48, -7, -7, 15292, 1877, 1959), (48, -7, -6, -115780, 1965, 2181), (48, -6, -6, 13107, 2, 277), (49, -6, -6, 13107, 283, 892),
    (50, -6, -6, 13107, 898, 1536), (51, -6, -6, 13107, 1542, 1996), (51, -6, -5, -117965, 2002, 2181), (51, -5, -5, 10923, 2, 29), (52, -5, -5, 10923, 35, 747), (53, -5, -5, 10923, 753, 1515),
    (54, -5, -5, 10923, 1521, 2033), (54, -5, -4, -120149, 2039, 2181), (54, -4, -4, 8738, 2, 162), (55, -4, -4, 8738, 168, 1078), (56, -4, -4, 8738, 1084, 2070), (56, -4, -3, -122334, 2076, 2113),
    (57, -4, -3, -122334, 2119, 2181), (57, -3, -3, 6554, 2, 1152), (58, -3, -3, 6554, 1157, 2107), (58, -3, -2, -124518, 2113, 2181), (58, -2, -2, 4369, 2, 554), (59, -2, -2, 4369, 559, 2144),
    (59, -2, -1, -126703, 2150, 2181), (59, -1, -1, 2185, 2, 2181),
];
const EDGES: [(i64, i64, i64, i64, i64); 114] = [
    (1, 1, -2185, 1624, 1624), (2, 2, -4369, 1026, 1026), (3, 2, 124518, 64, 64), (3, 3, -6554, 1099, 1099), (3, 3, -6554, 2015, 2015), (4, 4, -8738, 662, 662),
    (4, 4, -8738, 1430, 1430), (4, 4, -8738, 2148, 2149), (5, 5, -10923, 641, 642), (5, 5, -10923, 1285, 1285), (5, 5, -10923, 1900, 1900), (6, 6, -13107, 306, 306),
    (6, 6, -13107, 874, 875), (6, 6, -13107, 1424, 1424), (6, 6, -13107, 1957, 1957), (7, 7, -15292, 291, 291), (7, 7, -15292, 795, 795), (7, 7, -15292, 1287, 1287),
    (7, 7, -15292, 1768, 1768), (8, 7, 113596, 55, 55), (8, 8, -17476, 516, 516), (8, 8, -17476, 969, 969), (8, 8, -17476, 1414, 1414), (8, 8, -17476, 1851, 1851),
    (9, 8, 111411, 97, 98), (9, 9, -19661, 522, 522), (9, 9, -19661, 940, 940), (9, 9, -19661, 1353, 1353), (9, 9, -19661, 1761, 1761), (9, 9, -19661, 2164, 2164),
    (10, 10, -21845, 378, 378), (10, 10, -21845, 772, 773), (10, 10, -21845, 1163, 1163), (10, 10, -21845, 1549, 1550), (10, 10, -21845, 1933, 1933), (11, 10, 107042, 128, 128),
    (11, 11, -24030, 505, 505), (11, 11, -24030, 878, 879), (11, 11, -24030, 1249, 1250), (11, 11, -24030, 1618, 1618), (11, 11, -24030, 1984, 1984), (12, 11, 104858, 163, 163),
    (12, 12, -26214, 525, 525), (12, 12, -26214, 884, 884), (12, 12, -26214, 1242, 1242), (12, 12, -26214, 1597, 1597), (12, 12, -26214, 1951, 1951), (13, 12, 102673, 118, 118),
    (13, 12, 102673, 467, 468), (13, 13, -28399, 815, 815), (13, 13, -28399, 1160, 1161), (13, 13, -28399, 1503, 1503), (13, 13, -28399, 1843, 1843), (13, 13, -28399, 2178, 2178),
    (14, 13, 100489, 321, 321), (14, 14, -30583, 635, 635), (14, 14, -30583, 919, 919), (14, 14, -30583, 1088, 1089), (-15, -15, 32768, 1088, 1089), (-15, -15, 32768, 1258, 1258),
    (-15, -15, 32768, 1542, 1542), (-15, -14, -98304, 1856, 1856), (-14, -14, 30583, 334, 334), (-14, -14, 30583, 673, 674), (-14, -14, 30583, 1016, 1016), (-14, -14, 30583, 1362, 1362),
    (-14, -13, -100489, 2059, 2059), (-13, -13, 28399, 226, 226), (-13, -13, 28399, 580, 580), (-13, -13, 28399, 935, 935), (-13, -13, 28399, 1293, 1293), (-13, -13, 28399, 1652, 1652),
    (-13, -12, -102673, 2014, 2014), (-12, -12, 26214, 193, 193), (-12, -12, 26214, 559, 559), (-12, -12, 26214, 927, 927), (-12, -12, 26214, 1298, 1299), (-12, -12, 26214, 1672, 1672),
    (-12, -11, -104858, 2049, 2049), (-11, -11, 24030, 244, 244), (-11, -11, 24030, 627, 628), (-11, -11, 24030, 1014, 1014), (-11, -11, 24030, 1404, 1405), (-11, -11, 24030, 1799, 1799),
    (-10, -10, 21845, 13, 13), (-10, -10, 21845, 416, 416), (-10, -10, 21845, 824, 824), (-10, -10, 21845, 1237, 1237), (-10, -10, 21845, 1655, 1655), (-10, -9, -109227, 2079, 2080),
    (-9, -9, 19661, 326, 326), (-9, -9, 19661, 763, 763), (-9, -9, 19661, 1208, 1208), (-9, -9, 19661, 1661, 1661), (-9, -8, -111411, 2122, 2122), (-8, -8, 17476, 409, 409),
    (-8, -8, 17476, 890, 890), (-8, -8, 17476, 1382, 1382), (-8, -8, 17476, 1886, 1886), (-7, -7, 15292, 219, 220), (-7, -7, 15292, 753, 753), (-7, -7, 15292, 1302, 1303),
    (-7, -7, 15292, 1871, 1871), (-6, -6, 13107, 277, 277), (-6, -6, 13107, 892, 892), (-6, -6, 13107, 1535, 1536), (-5, -5, 10923, 28, 29), (-5, -5, 10923, 747, 747),
    (-5, -5, 10923, 1515, 1515), (-4, -4, 8738, 162, 162), (-4, -4, 8738, 1078, 1078), (-4, -3, -122334, 2113, 2113), (-3, -3, 6554, 1151, 1151), (-2, -2, 4369, 553, 553),
];

const N: f64 = 131072.0;
/// times are stored as TAI seconds from J2000
const EPOCH_SHIFT: f64 = 32.184;

/// longitude zone numbers (even, odd), the offset of the odd code and the range of the shared part of the codes
fn lon_cell(nl: i64, pick: i64) -> (i64, i64, i64, i64, i64) {
    let (ne, no) = (nl, std::cmp::max(nl - 1, 1));
    // first, last, middle and last-before-180 zones, with one of the one or two odd zones that share it
    let me = [0, ne - 1, ne / 2, (ne - 1) / 2][(pick % 4) as usize];
    let cell = |mo: i64| {
        let k = -(131072 * (ne * mo - no * me)).div_euclid(ne);
        // x0 = ne a + r, x1 = no a + b + k, both inside 0..131072
        let lo = std::cmp::max(20i64, -((k - 20).div_euclid(no)));
        let hi = std::cmp::min((131071 - ne).div_euclid(ne), (131071 - 20 - k).div_euclid(no));
        (me, mo, k, lo, hi)
    };
    let mo = (me * no).div_euclid(ne);
    let c = cell(mo + pick / 4 % 2);
    if mo < no && c.1 < no && c.3 <= c.4 { c } else { cell(mo) }
}
fn wrap(lon: f64) -> f64 {
    if lon >= 180.0 { lon - 360.0 } else { lon }
}
fn frame(me: [u8; 7]) -> AdsbFrame {
    // the frame whose checksum has been accepted
    let mut b = [0u8; 14];
    b[0] = 17 << 3;
    b[4..11].copy_from_slice(&me);
    unsafe { std::mem::transmute::<[u8; 14], AdsbFrame>(b) }
}
fn bits(name: &'static str, n: u32) -> u16 {
    int(name, 0, (1i64 << n) - 1) as u16
}

static DIGIT: [&str; 96] = [
    "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20", "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "d30", "d31",
    "d32", "d33", "d34", "d35", "d36", "d37", "d38", "d39", "d40", "d41", "d42", "d43", "d44", "d45", "d46", "d47", "d48", "d49", "d50", "d51", "d52", "d53", "d54", "d55", "d56", "d57", "d58", "d59", "d60", "d61", "d62", "d63",
    "d64", "d65", "d66", "d67", "d68", "d69", "d70", "d71", "d72", "d73", "d74", "d75", "d76", "d77", "d78", "d79", "d80", "d81", "d82", "d83", "d84", "d85", "d86", "d87", "d88", "d89", "d90", "d91", "d92", "d93", "d94", "d95",
];
/// a line from a template: each # an arbitrary digit, the last one the checksum; and the number in columns a..b
struct Line {
    text: Vec<u8>,
}
fn line(template: &str, from: usize) -> Line {
    let mut text = template.as_bytes().to_vec();
    let mut k = from;
    let mut sum = 0u32;
    for c in text.iter_mut() {
        if *c == b'#' {
            let d = int(DIGIT[k], 0, 9);
            sum += d as u32;
            *c = b'0' + d as u8;
            k += 1;
        } else if *c >= b'0' && *c <= b'9' {
            sum += (*c - b'0') as u32;
        } else if *c == b'-' {
            sum += 1;
        }
    }
    text.push(b'0' + (sum % 10) as u8);
    Line { text }
}
impl Line {
    fn str(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.text) }
    }
    /// the decimal integer formed by the digits of columns a..b (from 0)
    fn int(&self, a: usize, b: usize) -> f64 {
        let mut v = 0.0;
        for &c in &self.text[a..b] {
            if c != b'.' && c != b' ' {
                v = v * 10.0 + (c - b'0') as f64;
            }
        }
        v
    }
}

contracts! {
    fn vc_p13_tle() {
        let m = each("signs", 0, 3);
        let l1 = line(["1 0####U 98067A   08264.######## -.######## +#####-0 -#####-4 0 #0##", "1 0####C 98067A   08264.########  .########  #####+1  #####-9 0    #"][m as usize & 1], 0);
        let l2 = line(["2 00000 0##.#### 2##.#### 0###### 1##.#### 3##.#### 15.########0####", "2 00000 0##.#### 2##.#### 0###### 1##.#### 3##.#### 15.########   ##"][m as usize / 2], 34);
        // the same satellite on both lines
        let (mut l2, mut s) = (l2, 0);
        for i in 3..7 {
            l2.text[i] = l1.text[i];
            s += (l1.text[i] - b'0') as u32;
        }
        let c = (l2.text[68] - b'0') as u32;
        l2.text[68] = b'0' + ((c + s) % 10) as u8;
        let got = parse_tle(l1.str(), l2.str());
        reach("tle");
        ensure("a well-formed set is read", got.is_ok());
        if let Ok(t) = got {
            ensure_eq("catalogue number", t.norad_id.0 as f64, l1.int(2, 7), 0.0);
            let (sn, sd, sb) = if m & 1 == 0 { (-1.0, 1.0, -1e-4) } else { (1.0, 10.0, 1e-9) };
            ensure_eq("mean motion derivative", t.mean_motion_dot, sn * l1.int(35, 43) * 1e-8, 1e-15);
            ensure_eq("second derivative", t.mean_motion_ddot, sd * l1.int(45, 50) * 1e-5, 1e-12);
            ensure_eq("drag term", t.bstar, sb * l1.int(54, 59) * 1e-5, 1e-15);
            ensure_eq("element set", t.element_set_number as f64, l1.int(64, 68), 0.0);
            ensure_eq("inclination", t.inclination.value(), l2.int(8, 16) * 1e-4, 1e-12);
            ensure_eq("node", t.raan.value(), l2.int(17, 25) * 1e-4, 1e-12);
            ensure_eq("eccentricity", t.eccentricity, l2.int(26, 33) * 1e-7, 1e-12);
            ensure_eq("perigee", t.argument_of_perigee.value(), l2.int(34, 42) * 1e-4, 1e-12);
            ensure_eq("mean anomaly", t.mean_anomaly.value(), l2.int(43, 51) * 1e-4, 1e-12);
            ensure_eq("mean motion", t.mean_motion.value(), l2.int(52, 63) * 1e-8, 1e-12);
            ensure_eq("revolution number", t.revolution_number_at_epoch as f64, l2.int(63, 68), 0.0);
        }
    }
    fn vc_p13_tle_epoch() {
        let k = each("date", 0, 4) as usize;
        // days from J2000 noon to the start of the day, and TAI-UTC then
        let (year, day, mjd, leap) = [("08", "264", 54729.0, 33.0), ("99", "365", 51543.0, 32.0), ("00", "060", 51603.0, 32.0), ("24", "366", 60675.0, 37.0), ("72", "183", 41499.0, 11.0)][k];
        let mut t = String::from("1 25544U 98067A   ");
        t.push_str(year);
        t.push_str(day);
        t.push_str(".######## -.00002182  00000-0 -11606-4 0  292");
        let l1 = line(&t, 0);
        let got = parse_tle(l1.str(), "2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537");
        reach("date");
        // the first second of a leap day is within rounding of the leap second
        assume(l1.int(24, 32) >= 2000.0);
        ensure("a well-formed set is read", got.is_ok());
        if let Ok(t) = got {
            let (a, b) = t.epoch.raw_seconds_pair();
            ensure_eq("epoch", a.value() + b.value(), (mjd - 51544.5 + l1.int(24, 32) * 1e-8) * 86400.0 + leap + 32.184 - EPOCH_SHIFT, 1e-4);
        }
    }
    fn vc_p13_eop_between() {
        let rec = |t: f64, n: [&'static str; 6]| {
            let v = n.map(|n| real(n, -10.0, 10.0));
            (EopRecord { mjd: ModifiedJulianDate::<tempoch::UTC>::try_new(Day::new(t)).unwrap(), eop: EopValues { dut1: Seconds::new(v[0]), lod: Seconds::new(v[1]), xp: Arcseconds::new(v[2]), yp: Arcseconds::new(v[3]), dx: MilliArcseconds::new(v[4]), dy: MilliArcseconds::new(v[5]) } }, v)
        };
        let n = each("records", 1, 5) as usize;
        let t0 = real("first day", 41000.0, 70000.0);
        let step = real("spacing", 0.01, 10.0);
        let at = [0.0, 1.0, 2.5, 3.0, 4.5];
        let names = [["a0", "a1", "a2", "a3", "a4", "a5"], ["b0", "b1", "b2", "b3", "b4", "b5"], ["c0", "c1", "c2", "c3", "c4", "c5"], ["e0", "e1", "e2", "e3", "e4", "e5"], ["f0", "f1", "f2", "f3", "f4", "f5"]];
        let mut table = Vec::new();
        let mut vals = Vec::new();
        for i in 0..n {
            let (r, v) = rec(t0 + step * at[i], names[i]);
            table.push(r);
            vals.push(v);
        }
        let k = each("interval", -1, 4);
        assume(k < n as i64);
        let f = real("fraction", 0.0, 0.999);
        let (t, want) = if k < 0 {
            (t0 - f, vals[0])
        } else if k as usize + 1 == n {
            (t0 + step * at[n - 1] + f, vals[n - 1])
        } else {
            let k = k as usize;
            (t0 + step * (at[k] + f * (at[k + 1] - at[k])), [0, 1, 2, 3, 4, 5].map(|i| vals[k][i] + f * (vals[k + 1][i] - vals[k][i])))
        };
        let got = interpolate(&table, ModifiedJulianDate::<tempoch::UTC>::try_new(Day::new(t)).unwrap());
        reach("between");
        ensure("a table gives values at every date", got.is_some());
        ensure("an empty table gives none", interpolate(&[], ModifiedJulianDate::<tempoch::UTC>::try_new(Day::new(t)).unwrap()).is_none());
        if let Some(r) = got {
            let g = [r.eop.dut1.value(), r.eop.lod.value(), r.eop.xp.value(), r.eop.yp.value(), r.eop.dx.value(), r.eop.dy.value()];
            for i in 0..6 {
                ensure_eq("linear between records, constant outside", g[i], want[i], 1e-7);
            }
        }
    }
    fn vc_p13_eop_line() {
        let l = line("20#0 1# 2# 5####.# 0.####61 -0.####84 -0.1##4567 0.000##23 0.0##012 -0.000##4", 0);
        let mut text = b"# header\n".to_vec();
        text.extend_from_slice(&l.text[..l.text.len() - 1]);
        text.push(b'\n');
        let got = read_eop_c04(&text[..]);
        reach("line");
        ensure("read", got.is_ok());
        if let Ok(v) = got {
            ensure("one record", v.len() == 1);
            if v.len() == 1 {
                let r = v[0];
                ensure_eq("date", r.mjd.raw().value(), l.int(11, 18) * 0.1, 1e-9);
                ensure_eq("x of the pole", r.eop.xp.value(), l.int(19, 27) * 1e-6, 1e-12);
                ensure_eq("y of the pole", r.eop.yp.value(), -l.int(29, 37) * 1e-6, 1e-12);
                ensure_eq("UT1-UTC", r.eop.dut1.value(), -l.int(39, 48) * 1e-7, 1e-12);
                ensure_eq("length of day", r.eop.lod.value(), l.int(49, 58) * 1e-7, 1e-12);
                ensure_eq("dX in milliarcseconds", r.eop.dx.value(), l.int(59, 67) * 1e-3, 1e-12);
                ensure_eq("dY in milliarcseconds", r.eop.dy.value(), -l.int(69, 77) * 1e-3, 1e-12);
            }
        }
    }
    fn vc_p13_cpf_line() {
        let l = line("10 0 60310 12#45.# 0 -6####12.### 9####00.### 70####0.###", 0);
        let mut text = b"H1 CPF 2 HTS 2024 01 01 00 1\nH2 s 0 0\n".to_vec();
        text.extend_from_slice(&l.text[..l.text.len() - 1]);
        text.extend_from_slice(b"\n99\n");
        let got = parse_cpf(unsafe { std::str::from_utf8_unchecked(&text) });
        reach("line");
        ensure("read", got.is_ok());
        if let Ok(f) = got {
            ensure("one entry", f.ephemeris.entries.len() == 1);
            if f.ephemeris.entries.len() == 1 {
                let e = &f.ephemeris.entries[0];
                ensure_eq("x in kilometres", e.position.x().value(), -l.int(22, 33) * 1e-6, 1e-9);
                ensure_eq("y in kilometres", e.position.y().value(), l.int(34, 45) * 1e-6, 1e-9);
                ensure_eq("z in kilometres", e.position.z().value(), l.int(46, 57) * 1e-6, 1e-9);
                let (a, b) = e.epoch.raw_seconds_pair();
                ensure_eq("epoch", a.value() + b.value(), (60310.0 - 51544.5) * 86400.0 + l.int(11, 18) * 0.1 + 37.0 + 32.184 - EPOCH_SHIFT, 1e-4);
            }
        }
    }
    fn vc_p13_sp3_line() {
        let l = line("PG0#  1####.####26 -2####.##3456   ####.###### -###.######", 0);
        let mut text = b"#dP2024\n*  2024  1  1  0 15  0.00000000\n".to_vec();
        text.extend_from_slice(&l.text[..l.text.len() - 1]);
        text.extend_from_slice(b"\nEOF\n");
        let got = read_sp3(&text[..]);
        reach("line");
        ensure("read", got.is_ok());
        if let Ok(f) = got {
            ensure("one record", f.epochs.len() == 1 && f.epochs[0].positions.len() == 1);
            if f.epochs.len() == 1 && f.epochs[0].positions.len() == 1 {
                let e = &f.epochs[0].positions[0];
                ensure_eq("x", e.position.x().value(), l.int(6, 18) * 1e-6, 1e-9);
                ensure_eq("y", e.position.y().value(), -l.int(20, 32) * 1e-6, 1e-9);
                ensure_eq("z", e.position.z().value(), l.int(35, 46) * 1e-6, 1e-9);
                ensure_eq("clock", e.clock.value(), -l.int(48, 58) * 1e-6, 1e-9);
                ensure("satellite", e.sat_id.len() == 3 && e.sat_id.as_bytes()[2] == l.text[3]);
                let (a, b) = f.epochs[0].time.raw_seconds_pair();
                ensure_eq("epoch", a.value() + b.value(), (60310.0 - 51544.5) * 86400.0 + 900.0 + 37.0 + 32.184 - EPOCH_SHIFT, 1e-4);
            }
        }
    }
    fn vc_p13_tle_checksum() {
        let (p, d) = (each("column", 2, 67) as usize, int("d", 0, 9) as u8);
        let good = line("1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  292", 0);
        let mut bad = Line { text: good.text.clone() };
        ensure("the checksum is accepted", validate_tle_checksum(good.str()).is_ok());
        let old = good.text[p];
        assume(old >= b'0' && old <= b'9');
        bad.text[p] = b'0' + d;
        reach("checksum");
        ensure("any single wrong digit is refused", validate_tle_checksum(bad.str()).is_ok() == (d == old - b'0'));
    }
    fn vc_p13_alpha5() {
        let k = each("letter", 0, 25) as u8;
        let t = line("X####", 0);
        let mut b = t.text;
        b.truncate(5);
        b[0] = b'A' + k;
        let l = Line { text: b };
        let got = SatelliteNumber::parse(l.str());
        reach("letter");
        let i = "ABCDEFGHJKLMNPQRSTUVWXYZ".bytes().position(|c| c == b'A' + k);
        match (i, got) {
            (Some(i), Ok(n)) => ensure_eq("letters stand for 10 to 33", n.0 as f64, (i as f64 + 10.0) * 10000.0 + l.int(1, 5), 0.0),
            (None, Err(_)) => ensure("I and O are not used", true),
            _ => ensure("accepted exactly if the letter is used", false),
        }
    }
    fn vc_p13_cpr_pair() {
        let zone = each("zone", 0, ZONES.len() as i64 - 1);
        let (nl, ke, ko, k, a0, a1) = ZONES[zone as usize];
        let odd = each("odd latest", 0, 1) == 1;
        let (a, r, b) = (int("a", a0, a1), int("r", 0, 59), int("b", -50, 50));
        let (lat0, lat1) = (60 * a + r, 59 * a + b + k);
        let (me, mo, kx, lo, hi) = lon_cell(nl, zone);
        let (ne, no) = (nl, std::cmp::max(nl - 1, 1));
        let (c, s, d) = (int("c", lo, hi), int("s", 0, ne - 1), int("d", -15, 15));
        let (lon0, lon1) = (ne * c + s, no * c + d + kx);
        let got = decode_globally(lat0 as u32, lon0 as u32, lat1 as u32, lon1 as u32, odd);
        ensure("a pair from one zone is decoded", got.is_ok());
        reach("pair");
        if let Ok((lat, lon)) = got {
            let (y, x) = if odd { (360.0 / 59.0 * (ko as f64 + lat1 as f64 / N), 360.0 / no as f64 * (mo as f64 + lon1 as f64 / N)) } else { (6.0 * (ke as f64 + lat0 as f64 / N), 360.0 / ne as f64 * (me as f64 + lon0 as f64 / N)) };
            ensure_eq("latitude", lat.value(), y, 1e-9);
            ensure_eq("longitude", lon.value(), wrap(x), 1e-9);
        }
    }
    fn vc_p13_cpr_mixed_zones() {
        let (_, _, k, a0, a1) = EDGES[each("edge", 0, EDGES.len() as i64 - 1) as usize];
        let (a, r, b) = (int("a", a0, a1), int("r", 0, 59), int("b", 320, 600));
        let (lat0, lat1) = (60 * a + r, 59 * a + b + k);
        assume(lat1 >= 0 && lat1 < 131072);
        let got = decode_globally(lat0 as u32, int("x0", 0, 131071) as u32, lat1 as u32, int("x1", 0, 131071) as u32, each("odd latest", 0, 1) == 1);
        reach("edge");
        ensure("frames with different numbers of longitude zones are refused", got.is_err());
    }
    fn vc_p13_cpr_single() {
        let zone = each("zone", 0, ZONES.len() as i64 - 1);
        let (nl, ke, ko, k, a0, a1) = ZONES[zone as usize];
        let odd = each("odd", 0, 1) == 1;
        let code = if odd { int("y", 59 * a0 + k, 59 * a1 + k) } else { int("y", 60 * a0, 60 * a1) };
        let (kl, dl, n) = if odd { (ko, 360.0 / 59.0, std::cmp::max(nl - 1, 1)) } else { (ke, 6.0, nl) };
        let m = [0, n - 1, n / 2, -1, -n / 2][(zone % 5) as usize];
        let x = int("x", 0, 131071);
        let dn = 360.0 / n as f64;
        let (lat, lon) = (dl * (kl as f64 + code as f64 / N), dn * (m as f64 + x as f64 / N));
        // the reference lies within half a zone of the aircraft
        let (p, q) = (real("north", -0.499, 0.499), real("east", -0.499, 0.499));
        let got = decode_locally(code as u32, x as u32, odd, lat + p * dl, lon + q * dn);
        ensure("a frame near the reference is decoded", got.is_ok());
        reach("single");
        if let Ok((y, z)) = got {
            ensure_eq("latitude", y.value(), lat, 1e-9);
            let w = wrap(lon);
            ensure_eq("longitude, between -180 and 180 degrees", z.value(), if w < -180.0 { w + 360.0 } else { w }, 1e-9);
        }
    }
    fn vc_p13_position_fields() {
        let (ss, ant, ah, am, al, odd, t) = (bits("status", 2), flag("antenna"), bits("alt high", 4), bits("alt mid", 4), bits("alt low", 4), flag("odd"), bits("time", 1));
        let (y2, y8, y7, x1, xh, xl) = (bits("lat high", 2), bits("lat mid", 8), bits("lat low", 7), bits("lon high", 1), bits("lon mid", 8), bits("lon low", 8));
        let tc = each("type code", 0, 31) as u16;
        let me = [(tc * 8 + ss * 2 + ant as u16) as u8, (ah * 16 + am) as u8, (al * 16 + t * 8 + odd as u16 * 4 + y2) as u8, y8 as u8, (y7 * 2 + x1) as u8, xh as u8, xl as u8];
        let got = decode_airborne_position(&frame(me));
        reach("fields");
        if tc < 9 || tc > 18 {
            ensure("only type codes 9-18 are airborne positions", got.is_err());
        } else if let Ok(p) = got {
            ensure("surveillance status", p.surveillance_status as u16 == ss);
            ensure("single antenna", p.single_antenna == ant);
            ensure("altitude code", p.encoded_altitude == ah * 256 + am * 16 + al);
            ensure("odd or even", p.cpr_odd == odd);
            ensure("latitude code", p.cpr_lat == y2 as u32 * 32768 + y8 as u32 * 128 + y7 as u32);
            ensure("longitude code", p.cpr_lon == x1 as u32 * 65536 + xh as u32 * 256 + xl as u32);
        } else {
            ensure("type codes 9-18 are airborne positions", false);
        }
    }
    fn vc_p13_velocity() {
        let sub = each("subtype", 0, 7) as u8;
        let (wh, wl, sh, sl) = (bits("ew high", 2), bits("ew low", 8), bits("ns high", 7), bits("ns low", 3));
        let (west, south, down) = (flag("west"), flag("south"), flag("down"));
        let (vh, vl) = (bits("vr high", 3), bits("vr low", 6));
        let (i, j, s, g) = (bits("intent", 5), bits("diff", 2), bits("source", 1), bits("geo", 8));
        let me = [19 * 8 + sub, (i * 8 + west as u16 * 4 + wh) as u8, wl as u8, (south as u16 * 128 + sh) as u8, (sl * 32 + s * 16 + down as u16 * 8 + vh) as u8, (vl * 4 + j) as u8, g as u8];
        let got = decode_airborne_velocity(&frame(me));
        reach("velocity");
        if sub != 1 && sub != 2 {
            ensure("only ground-speed subtypes are decoded", got.is_err());
            return;
        }
        ensure("ground-speed subtypes are decoded", got.is_ok());
        if let Ok(v) = got {
            let (ew, ns, vr) = (wh * 256 + wl, sh * 8 + sl, vh * 64 + vl);
            let kt = if sub == 2 { 4.0 } else { 1.0 } * 0.514444;
            ensure("vertical rate given exactly if it was sent", v.vertical_rate_mps.is_some() == (vr != 0));
            if let Some(r) = v.vertical_rate_mps {
                ensure_eq("vertical rate", r.value(), (vr as f64 - 1.0) * 64.0 * 0.00508 * if down { -1.0 } else { 1.0 }, 1e-9);
            }
            ensure("ground speed given exactly if both components were sent", v.ground_speed_mps.is_some() == (ew != 0 && ns != 0));
            if let Some(q) = v.ground_speed_mps {
                let (x, y) = ((ew as f64 - 1.0) * kt * if west { -1.0 } else { 1.0 }, (ns as f64 - 1.0) * kt * if south { -1.0 } else { 1.0 });
                ensure_eq("ground speed", q.value(), (x * x + y * y).sqrt(), 1e-9);
                ensure("a standing aircraft has no track", v.heading.is_some() == (ew > 1 || ns > 1));
                if let Some(h) = v.heading {
                    let (a, b) = (h.value().to_radians().sin(), h.value().to_radians().cos());
                    ensure_eq("eastward part along the track", q.value() * a, x, 1e-6);
                    ensure_eq("northward part along the track", q.value() * b, y, 1e-6);
                    ensure("track from 0 to 360 degrees", h.value() >= 0.0 && h.value() <= 360.0);
                }
            }
        }
    }
    fn vc_p13_altitude() {
        let (h, l) = (bits("high", 7), bits("low", 4));
        reach("altitude");
        if flag("25 ft") {
            let a = decode_altitude(h * 32 + 16 + l);
            ensure("25 ft codes are decoded", a.is_some());
            if let Some(a) = a {
                ensure_eq("altitude", a.value(), ((h as f64 * 16.0 + l as f64) * 25.0 - 1000.0) * 0.3048, 1e-9);
            }
        } else {
            ensure("other codes are not available", decode_altitude(h * 32 + l).is_none());
        }
    }
}
