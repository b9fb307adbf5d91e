//! Reference: client info windows, client records and the client lists.
use anyhow::{anyhow, Result};
use bstr::ByteSlice;
use quake_clientinfo::Clientinfo;
use quake_text::unicode;

use crate::client::Client;

pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
    let Some(start) = data.find(b"\tcmd spawn") else {
        return Err(anyhow!("no client info"));
    };
    let stop = start + 24 * 512;
    let mut out: Vec<String> = vec![];
    let mut at = start;
    loop {
        let end = data.len().min(at + 512);
        let Some(rel) = data[at..end].find(b"\\name\\") else { break };
        let name = at + rel;
        let Some(zero) = data[..name].rfind_byte(0) else { break };
        let from = zero + 1;
        let Some(len) = data[from..].find_byte(0) else { break };
        if len < 7 || len > 256 {
            break;
        }
        out.push(quake_text::bytestr::to_unicode(&data[from..from + len]));
        at = from + len;
        if at >= stop {
            break;
        }
    }
    Ok(out)
}

pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
    let mut out = Vec::new();
    for s in crate::clientinfo::clientinfo_strings(data)?.iter() {
        out.push(Clientinfo::from(s.as_str()));
    }
    Ok(out)
}

pub fn client_from(value: &Clientinfo) -> Client {
    Client {
        number: 0,
        name: value.name.clone().unwrap_or_default(),
        team: value.team.clone().unwrap_or_default(),
        color: [
            value.topcolor.unwrap_or(0).clamp(0, 255) as u8,
            value.bottomcolor.unwrap_or(0).clamp(0, 255) as u8,
        ],
        is_spectator: match value.spectator { Some(v) => v != 0, None => false },
        is_bot: match value.bot { Some(v) => v != 0, None => false },
        auth_username: value.auth.clone(),
        auth_cc: value.flag.clone(),
    }
}

pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
    let infos = crate::clientinfo::clientinfo(data)?;
    Ok((0..=u8::MAX)
        .zip(infos.iter())
        .map(|(number, info)| Client { number, ..Client::from(info) })
        .collect())
}

pub fn player_clients(data: &[u8]) -> Result<Vec<Client>> {
    let all = crate::clients::clients(data)?;
    Ok(all.iter().filter(|c| !c.is_spectator).cloned().collect())
}

pub fn spectator_clients(data: &[u8]) -> Result<Vec<Client>> {
    let all = crate::clients::clients(data)?;
    Ok(all.iter().filter(|c| c.is_spectator).cloned().collect())
}

pub fn has_human_players(data: &[u8]) -> Result<bool> {
    Ok(player_clients(data)?.iter().any(|c| !c.is_bot))
}

pub fn has_bot_players(data: &[u8]) -> Result<bool> {
    let bots = player_clients(data)?.iter().any(|c| c.is_bot);
    Ok(bots || data.contains_str("\"bot\": {"))
}

pub fn player_names(data: &[u8]) -> Result<Vec<String>> {
    let names: Vec<String> = player_clients(data)?.iter().map(|c| c.name.clone()).collect();
    Ok(unicode::sort(&names))
}

pub fn spectator_names(data: &[u8]) -> Result<Vec<String>> {
    let names: Vec<String> = spectator_clients(data)?.iter().map(|c| c.name.clone()).collect();
    Ok(unicode::sort(&names))
}

pub fn team_names(data: &[u8]) -> Result<Vec<String>> {
    let mut names: Vec<String> = player_clients(data)?.iter().map(|c| c.team.clone()).collect();
    names.sort();
    names.dedup();
    Ok(unicode::sort(&names))
}
