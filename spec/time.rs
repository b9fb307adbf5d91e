//! Reference: dates, time zones and durations.
use std::time::Duration;

use anyhow::{anyhow, Result};
use bstr::ByteSlice;
use chrono::{DateTime, LocalResult, TimeZone, Utc};

use crate::qw::frame;

pub fn matchdate_string(data: &[u8]) -> Result<String> {
    let Some(at) = data.find(b"\x08\x02matchdate: ") else {
        return Err(anyhow!("none"));
    };
    let from = at + 13;
    let Some(len) = data[from..].find_byte(b'\n') else {
        return Err(anyhow!("open"));
    };
    if len < 22 || len > 25 {
        return Err(anyhow!("length"));
    }
    Ok(String::from_utf8(data[from..from + len].to_vec())?)
}

pub fn matchdate(data: &[u8]) -> Result<DateTime<Utc>> {
    let text = crate::matchdate::matchdate_string(data)?;
    let (Some(date), Some(zone)) = (text.get(..19), text.get(20..)) else {
        return Err(anyhow!("invalid"));
    };
    let Some(offset) = crate::timezone::utc_offset(zone) else {
        return Err(anyhow!("zone"));
    };
    let full = format!("{}{}", date, offset);
    Ok(DateTime::parse_from_str(&full, "%Y-%m-%d %H:%M:%S%z")?.to_utc())
}

pub fn timestamp_from_epoch(data: &[u8]) -> Result<DateTime<Utc>> {
    let Some(epoch) = crate::serverinfo::serverinfo(data)?.epoch else {
        return Err(anyhow!("none"));
    };
    match Utc.timestamp_opt(epoch as i64, 0) {
        LocalResult::Single(t) => Ok(t),
        LocalResult::Ambiguous(t, _) => Ok(t),
        LocalResult::None => Err(anyhow!("range")),
    }
}

pub fn timestamp(data: &[u8]) -> Result<DateTime<Utc>> {
    match crate::timestamp::timestamp_from_epoch(data) {
        Ok(t) => Ok(t),
        Err(_) => crate::matchdate::matchdate(data),
    }
}

/// Time of the frames that start before the offset.
fn until(data: &[u8], target: usize) -> Duration {
    let mut ms: u64 = 0;
    let mut pos = 0;
    while let Ok(f) = frame::Info::from_data_and_index(data, pos) {
        if pos >= target {
            break;
        }
        ms += u64::from(f.duration);
        pos += f.size;
    }
    Duration::from_millis(ms)
}

fn is_hoonymode(data: &[u8]) -> bool {
    match crate::serverinfo::serverinfo(data) {
        Ok(s) => s.mode == Some("hoonymode".to_string()),
        Err(_) => false,
    }
}

pub fn countdown_duration(data: &[u8]) -> Result<Duration> {
    if is_hoonymode(data) {
        return Ok(Duration::ZERO);
    }
    match data.find(b"\x08\x02matchdate: ") {
        Some(at) => Ok(until(data, at)),
        None => Err(anyhow!("none")),
    }
}

pub fn demo_duration(data: &[u8]) -> Result<Duration> {
    let end = match data.rfind(b"The match is over") {
        Some(at) => at,
        None => match data.rfind(b"4status\0Standby\0") {
            Some(at) => at,
            None => data.len(),
        },
    };
    Ok(until(data, end))
}

pub fn match_duration_from_seeking(data: &[u8]) -> Result<Duration> {
    let end = crate::duration::demo_duration(data)?;
    let begin = match crate::duration::countdown_duration(data) {
        Ok(d) => d,
        Err(_) => Duration::ZERO,
    };
    Ok(end.saturating_sub(begin))
}

pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
    let text = crate::ktxstats::ktxstats_string(data)?;
    let key = b"\"duration\": ";
    let Some(at) = text.as_bytes().find(key) else {
        return Err(anyhow!("none"));
    };
    let from = at + key.len();
    let Some(len) = text.as_bytes()[from..].find(b",") else {
        return Err(anyhow!("open"));
    };
    if len == 0 {
        return Err(anyhow!("empty"));
    }
    let seconds: f64 = text[from..from + len].parse()?;
    Ok(Duration::try_from_secs_f64(seconds)?)
}

pub fn match_duration(data: &[u8]) -> Result<Duration> {
    if !is_hoonymode(data) {
        if let Ok(d) = crate::duration::match_duration_from_ktxstats(data) {
            return Ok(d);
        }
    }
    crate::duration::match_duration_from_seeking(data)
}

/// Abbreviation and its offset; the first entry of an ambiguous abbreviation.
const ZONES: [(&str, &str); 191] = [
    ("ACDT", "+10:30"),
    ("ACST", "+09:30"),
    ("ACT", "+09:30"),
    ("ACWST", "+08:45"),
    ("ADT", "-03:00"),
    ("AEDT", "+11:00"),
    ("AEST", "+10:00"),
    ("AFT", "+04:30"),
    ("AKDT", "-08:00"),
    ("AKST", "-09:00"),
    ("ALMT", "+06:00"),
    ("AMST", "-03:00"),
    ("AMT", "+04:00"),
    ("ANAT", "+12:00"),
    ("AQTT", "+05:00"),
    ("ART", "-03:00"),
    ("AST", "+03:00"),
    ("AWST", "+08:00"),
    ("AZOST", "+00:00"),
    ("AZOT", "-01:00"),
    ("AZT", "+04:00"),
    ("BIOT", "+06:00"),
    ("BIT", "-12:00"),
    ("BNT", "+08:00"),
    ("BOT", "-04:00"),
    ("BRST", "-02:00"),
    ("BRT", "-03:00"),
    ("BST", "+01:00"),
    ("BTT", "+06:00"),
    ("CAT", "+02:00"),
    ("CCT", "+06:30"),
    ("CDT", "-05:00"),
    ("CEST", "+02:00"),
    ("CET", "+01:00"),
    ("CHADT", "+13:45"),
    ("CHAST", "+12:45"),
    ("CHOST", "+09:00"),
    ("CHOT", "+08:00"),
    ("CHST", "+10:00"),
    ("CHUT", "+10:00"),
    ("CIST", "-08:00"),
    ("CKT", "-10:00"),
    ("CLST", "-03:00"),
    ("CLT", "-04:00"),
    ("COST", "-04:00"),
    ("COT", "-05:00"),
    ("CST", "-06:00"),
    ("CVT", "-01:00"),
    ("CWST", "+08:45"),
    ("CXT", "+07:00"),
    ("DAVT", "+07:00"),
    ("DDUT", "+10:00"),
    ("DFT", "+01:00"),
    ("EASST", "-05:00"),
    ("EAST", "-06:00"),
    ("EAT", "+03:00"),
    ("ECT", "-05:00"),
    ("EDT", "-04:00"),
    ("EEST", "+03:00"),
    ("EET", "+02:00"),
    ("EGST", "+00:00"),
    ("EGT", "-01:00"),
    ("EST", "-05:00"),
    ("FET", "+03:00"),
    ("FJT", "+12:00"),
    ("FKST", "-03:00"),
    ("FKT", "-04:00"),
    ("FNT", "-02:00"),
    ("GALT", "-06:00"),
    ("GAMT", "-09:00"),
    ("GET", "+04:00"),
    ("GFT", "-03:00"),
    ("GILT", "+12:00"),
    ("GIT", "-09:00"),
    ("GMT", "+00:00"),
    ("GST", "-02:00"),
    ("GYT", "-04:00"),
    ("HAEC", "+02:00"),
    ("HDT", "-09:00"),
    ("HKT", "+08:00"),
    ("HMT", "+05:00"),
    ("HOVST", "+08:00"),
    ("HOVT", "+07:00"),
    ("HST", "-10:00"),
    ("ICT", "+07:00"),
    ("IDLW", "-12:00"),
    ("IDT", "+03:00"),
    ("IOT", "+06:00"),
    ("IRDT", "+04:30"),
    ("IRKT", "+08:00"),
    ("IRST", "+03:30"),
    ("IST", "+01:00"),
    ("JST", "+09:00"),
    ("KALT", "+02:00"),
    ("KGT", "+06:00"),
    ("KOST", "+11:00"),
    ("KRAT", "+07:00"),
    ("KST", "+09:00"),
    ("LHST", "+10:30"),
    ("LINT", "+14:00"),
    ("MAGT", "+12:00"),
    ("MART", "−09:30"),
    ("MAWT", "+05:00"),
    ("MDT", "-06:00"),
    ("MEST", "+02:00"),
    ("MET", "+01:00"),
    ("MHT", "+12:00"),
    ("MIST", "+11:00"),
    ("MIT", "−09:30"),
    ("MMT", "+06:30"),
    ("MSK", "+03:00"),
    ("MST", "-07:00"),
    ("MUT", "+04:00"),
    ("MVT", "+05:00"),
    ("MYT", "+08:00"),
    ("NCT", "+11:00"),
    ("NDT", "−02:30"),
    ("NFT", "+11:00"),
    ("NOVT", "+07:00"),
    ("NPT", "+05:45"),
    ("NST", "−03:30"),
    ("NT", "−03:30"),
    ("NUT", "-11:00"),
    ("NZDT", "+13:00"),
    ("NZST", "+12:00"),
    ("OMST", "+06:00"),
    ("ORAT", "+05:00"),
    ("PDT", "-07:00"),
    ("PET", "-05:00"),
    ("PETT", "+12:00"),
    ("PGT", "+10:00"),
    ("PHOT", "+13:00"),
    ("PHST", "+08:00"),
    ("PHT", "+08:00"),
    ("PKT", "+05:00"),
    ("PMDT", "-02:00"),
    ("PMST", "-03:00"),
    ("PONT", "+11:00"),
    ("PST", "-08:00"),
    ("PWT", "+09:00"),
    ("PYST", "-03:00"),
    ("PYT", "-04:00"),
    ("RET", "+04:00"),
    ("ROTT", "-03:00"),
    ("SAKT", "+11:00"),
    ("SAMT", "+04:00"),
    ("SAST", "+02:00"),
    ("SBT", "+11:00"),
    ("SCT", "+04:00"),
    ("SDT", "-10:00"),
    ("SGT", "+08:00"),
    ("SLST", "+05:30"),
    ("SRET", "+11:00"),
    ("SRT", "-03:00"),
    ("SST", "+08:00"),
    ("SYOT", "+03:00"),
    ("TAHT", "-10:00"),
    ("TFT", "+05:00"),
    ("THA", "+07:00"),
    ("TJT", "+05:00"),
    ("TKT", "+13:00"),
    ("TLT", "+09:00"),
    ("TMT", "+05:00"),
    ("TOT", "+13:00"),
    ("TRT", "+03:00"),
    ("TST", "+08:00"),
    ("TVT", "+12:00"),
    ("ULAST", "+09:00"),
    ("ULAT", "+08:00"),
    ("UTC", "+00:00"),
    ("UYST", "-02:00"),
    ("UYT", "-03:00"),
    ("UZT", "+05:00"),
    ("VET", "-04:00"),
    ("VLAT", "+10:00"),
    ("VOLT", "+03:00"),
    ("VOST", "+06:00"),
    ("VUT", "+11:00"),
    ("WAKT", "+12:00"),
    ("WAST", "+02:00"),
    ("WAT", "+01:00"),
    ("WEST", "+01:00"),
    ("WET", "+00:00"),
    ("WGST", "-02:00"),
    ("WGT", "-03:00"),
    ("WIB", "+07:00"),
    ("WIT", "+09:00"),
    ("WITA", "+08:00"),
    ("WST", "+08:00"),
    ("YAKT", "+09:00"),
    ("YEKT", "+05:00"),
];

/// Offset as "+HH:MM" of an abbreviation or of a numeric offset (+HH, +HHMM, +HH:MM; two or four digits; at most 12:00).
pub fn utc_offset(value: &str) -> Option<String> {
    for (abbr, offset) in ZONES {
        if abbr == value {
            return Some(offset.to_string());
        }
    }
    let sign = match value.chars().next() {
        Some('+') => '+',
        Some('-') => '-',
        _ => return None,
    };
    let digits = value[1..].replace(':', "");
    if digits.len() != 2 && digits.len() != 4 {
        return None;
    }
    for b in digits.bytes() {
        if !b.is_ascii_digit() {
            return None;
        }
    }
    let digits = format!("{:0<4}", digits);
    let number: i32 = digits.parse().ok()?;
    if number < 0 || number > 1200 {
        return None;
    }
    Some(format!("{}{}:{}", sign, &digits[..2], &digits[2..]))
}
