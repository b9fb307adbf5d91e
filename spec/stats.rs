//! Reference: embedded statistics, server info and what is derived from them.
use std::io::{Cursor, Read};

use anyhow::{anyhow, Result};
use bstr::ByteSlice;
use ktxstats::v3::KtxstatsV3;
use quake_serverinfo::Settings;

use crate::qw::block;
use crate::qw::prot::HiddenMessage;
use crate::server::Server;

/// [u32 size, counting two of the header bytes][u16 kind][u16 number]
pub fn block_info(value: &[u8]) -> Result<block::Info> {
    if value.len() < 4 {
        return Err(anyhow!("short"));
    }
    let size = u32::from_le_bytes([value[0], value[1], value[2], value[3]]) as usize;
    if size < 2 {
        return Err(anyhow!("small"));
    }
    if value.len() < 8 {
        return Err(anyhow!("short"));
    }
    let kind = u16::from_le_bytes([value[4], value[5]]);
    let number = u16::from_le_bytes([value[6], value[7]]);
    Ok(block::Info {
        body_size: size - 2,
        total_size: 8 + (size - 2),
        hidden_message: HiddenMessage::from(&kind),
        number: usize::from(number),
    })
}

pub fn ktxstats_string(data: &[u8]) -> Result<String> {
    let Some(text) = data.rfind(b"{\"version\": ") else {
        return Err(anyhow!("none"));
    };
    if text < 18 {
        return Err(anyhow!("none"));
    }
    let mut at = text - 18;
    let mut json: Vec<u8> = Vec::new();
    loop {
        let head = if at + 10 <= data.len() { &data[at + 10..] } else { &[] };
        let Ok(info) = block::Info::try_from(head) else { break };
        if info.hidden_message != HiddenMessage::Demoinfo {
            break;
        }
        if at + 18 + info.body_size > data.len() {
            return Err(anyhow!("truncated"));
        }
        json.extend_from_slice(&data[at + 18..at + 18 + info.body_size]);
        if info.number == 0 {
            break;
        }
        at += 18 + info.body_size;
    }
    match std::str::from_utf8(&json) {
        Ok(s) => Ok(s.to_string()),
        Err(e) => Err(e.into()),
    }
}

pub fn ktxstats_v3(data: &[u8]) -> Result<KtxstatsV3> {
    let text = crate::ktxstats::ktxstats_string(data)?;
    match KtxstatsV3::try_from(text.as_str()) {
        Ok(s) => Ok(s),
        Err(e) => Err(anyhow!(e)),
    }
}

pub fn serverinfo_string(data: &[u8]) -> Result<String> {
    let window = &data[..data.len().min(1280)];
    let Some(at) = window.find(b"fullserverinfo \"") else {
        return Err(anyhow!("none"));
    };
    let from = at + 16;
    let Some(len) = window[from..].find(b"\"") else {
        return Err(anyhow!("open"));
    };
    if len == 0 {
        return Err(anyhow!("empty"));
    }
    Ok(quake_text::bytestr::to_utf8(&data[from..from + len]))
}

pub fn serverinfo(data: &[u8]) -> Result<Settings> {
    let text = crate::serverinfo::serverinfo_string(data)?;
    Ok(Settings::from(text.as_str()))
}

pub fn server_from(stats: &KtxstatsV3) -> Server {
    Server {
        hostname: stats.hostname.to_string(),
        address: format!("{}:{}", stats.ip, stats.port),
        ip: stats.ip.to_string(),
        port: stats.port,
    }
}

pub fn server(data: &[u8]) -> Result<Server> {
    match crate::ktxstats::ktxstats_v3(data) {
        Ok(stats) => Ok(Server::from(&stats)),
        Err(e) => Err(e),
    }
}

pub fn filename(data: &[u8]) -> Result<String> {
    match crate::serverinfo::serverinfo(data)?.serverdemo {
        Some(name) => Ok(name),
        None => Err(anyhow!("none")),
    }
}

pub fn is_aborted(data: &[u8]) -> bool {
    // svc_print, high, "Match stopped by majority vote" in coloured characters
    data.contains_str(b"\x08\x02\xCD\xE1\xF4\xE3\xE8\x20\xF3\xF4\xEF\xF0\xF0\xE5\xE4\x20\xE2\xF9\x20\xED\xE1\xEA\xEF\xF2\xE9\xF4\xF9\x20\xF6\xEF\xF4\xE5\n\0")
}

pub fn has_end_of_demo_print(data: &[u8]) -> bool {
    data.len() > 12 && data.ends_with(b"\0\x02EndOfDemo\0")
}

pub fn is_paused(data: &[u8]) -> bool {
    !crate::validate::has_end_of_demo_print(data)
        && (data.contains_str("Server is paused") || data.contains_str("paused the game"))
}

pub fn has_clients(data: &[u8]) -> bool {
    match crate::clientinfo::clientinfo(data) {
        Ok(list) => list.len() > 0,
        Err(_) => false,
    }
}

pub fn is_valid(data: &[u8]) -> bool {
    if data.len() < 1024 {
        return false;
    }
    crate::validate::has_end_of_demo_print(data)
        && crate::serverinfo::serverinfo(data).is_ok()
        && crate::validate::has_clients(data)
}
