//! Reference: players and teams.
use std::collections::{BTreeMap, HashMap};

use anyhow::Result;
use ktxstats::v3::KtxstatsV3;

use crate::player::Player;
use crate::team::Team;

fn by_rank(a: &Player, b: &Player) -> std::cmp::Ordering {
    b.frags.cmp(&a.frags).then_with(|| a.name.cmp(&b.name))
}

pub fn player_from_ktx(p: &ktxstats::v3::Player) -> Player {
    Player {
        name: p.name.clone(),
        team: p.team.clone(),
        color: [p.top_color.clamp(0, 255) as u8, p.bottom_color.clamp(0, 255) as u8],
        frags: p.stats.frags,
        ping: if p.ping > 0 { p.ping as u32 } else { 0 },
        is_bot: p.ping == 10 || p.bot.is_some(),
        auth_username: if p.login.is_empty() { None } else { Some(p.login.clone()) },
        auth_cc: None,
    }
}

pub fn players_from_ktxstats(stats: &KtxstatsV3) -> Result<Vec<Player>> {
    let mut out: Vec<Player> = stats.players.iter().map(Player::from).collect();
    out.sort_by(by_rank);
    Ok(out)
}

pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
    let clients = crate::clients::clients(data)?;
    let pings = crate::ping::ping_per_player_number(data)?;
    let frags = crate::frags::frags_per_player_name(data);
    let mut by_number: BTreeMap<u8, Player> = BTreeMap::new();
    for c in clients.iter() {
        if c.is_spectator {
            continue;
        }
        by_number.insert(
            c.number,
            Player {
                name: c.name.clone(),
                team: c.team.clone(),
                color: c.color,
                frags: frags.get(&c.name).copied().unwrap_or(0),
                ping: pings.get(&c.number).copied().unwrap_or(0),
                auth_username: c.auth_username.clone(),
                auth_cc: c.auth_cc.clone(),
                is_bot: c.is_bot,
            },
        );
    }
    let mut out: Vec<Player> = by_number.values().cloned().collect();
    out.sort_by(by_rank);
    Ok(out)
}

pub fn players(data: &[u8]) -> Result<Vec<Player>> {
    match crate::ktxstats::ktxstats_v3(data) {
        Ok(stats) => crate::players::players_from_ktxstats(&stats),
        Err(_) => crate::players::players_from_parsing(data),
    }
}

pub fn team_from(players: &[Player]) -> Team {
    if players.is_empty() {
        return Team::default();
    }
    let mut frags: i32 = 0;
    let mut ping: u64 = 0;
    let mut members: Vec<Player> = vec![];
    for p in players.iter() {
        frags = frags.saturating_add(p.frags);
        ping += u64::from(p.ping);
        members.push(p.clone());
    }
    let colors: Vec<[u8; 2]> = members.iter().map(|p| p.color).collect();
    Team {
        name: players[0].team.clone(),
        color: usual_color(&colors).unwrap_or(players[0].color),
        frags,
        ping: ((ping + members.len() as u64 / 2) / members.len() as u64) as u32,
        players: members,
    }
}

fn usual_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
    if colors.len() == 0 {
        return None;
    }
    if colors.len() <= 2 {
        return Some(colors[0]);
    }
    let mut count: HashMap<[u8; 2], usize> = HashMap::new();
    for c in colors.iter() {
        *count.entry(*c).or_insert(0) += 1;
    }
    let mut best = None;
    let mut most = 0;
    for c in colors.iter() {
        let n = count.get(c).copied().unwrap_or(0);
        if n > most {
            best = Some(*c);
            most = n;
        }
    }
    best
}

pub fn teams_from_players(players: &[Player]) -> Vec<Team> {
    let mut members: BTreeMap<String, Vec<Player>> = BTreeMap::new();
    for p in players.iter() {
        members.entry(p.team.clone()).or_default().push(p.clone());
    }
    let mut teams: Vec<Team> = vec![];
    for m in members.values() {
        teams.push(Team::from(m.as_slice()));
    }
    teams.sort_by(|a, b| a.name.to_lowercase().cmp(&b.name.to_lowercase()));
    teams
}

pub fn teams(data: &[u8]) -> Result<Vec<Team>> {
    let players = crate::players::players(data)?;
    Ok(crate::team::teams_from_players(&players))
}

pub fn teams_from_ktxstats(stats: &KtxstatsV3) -> Result<Vec<Team>> {
    let players = crate::players::players_from_ktxstats(stats)?;
    Ok(crate::team::teams_from_players(&players))
}
