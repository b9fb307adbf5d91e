//! Reference: classification of frag messages and frag counting.
use std::collections::HashMap;
use std::io::Cursor;

use anyhow::{anyhow, Result};

use crate::qw::fragevent::FragEvent;
use crate::qw::frame;
use crate::qw::message::message_type::ReadMessageType;
use crate::qw::message::print::ReadPrint;
use crate::qw::message::update_frags::ReadUpdateFrags;
use crate::qw::prot::{MessageType, PrintId};

const DEATHS: [&str; 17] = [
    " sleeps with the fishes",
    " sucks it down",
    " gulped a load of slime",
    " can't exist on slime alone",
    " burst into flames",
    " turned into hot slag",
    " visits the Volcano God",
    " cratered",
    " fell to his death",
    " fell to her death",
    " blew up",
    " was spiked",
    " was zapped",
    " ate a lavaball",
    " died",
    " tried to leave",
    " was squished",
];

const WEAPON_SUICIDES: [&str; 11] = [
    " tries to put the pin back in",
    " becomes bored with life",
    " discovers blast radius",
    " electrocutes himself",
    " electrocutes herself",
    " railcutes himself",
    " railcutes herself",
    " discharges into the slime",
    " discharges into the lava",
    " discharges into the water",
    " heats up the water",
];

const TEAMKILLS: [&str; 6] = [
    " squished a teammate",
    " mows down a teammate",
    " checks his glasses",
    " checks her glasses",
    " gets a frag for the other team",
    " loses another friend",
];

const TEAMKILLED: [&str; 6] = [
    " was telefragged by his teammate",
    " was telefragged by her teammate",
    " was crushed by his teammate",
    " was crushed by her teammate",
    " was jumped by his teammate",
    " was jumped by her teammate",
];

/// (text between the names, text after the second name, killer is named first)
const FRAGS: [(&str, &str, bool); 31] = [
    (" stomps ", "", true),
    (" squishes ", "", true),
    (" rips ", " a new one", true),
    (" was ax-murdered by ", "", false),
    (" softens ", "'s fall", false),
    (" tried to catch ", "", false),
    (" was crushed by ", "", false),
    (" was jumped by ", "", false),
    (" chewed on ", "'s boomstick", false),
    (" was body pierced by ", "", false),
    (" was nailed by ", "", false),
    (" was railed by ", "", false),
    (" was telefragged by ", "", false),
    (" accepts ", "'s discharge", false),
    (" drains ", "'s batteries", false),
    (" was lead poisoned by ", "", false),
    (" accepts ", "'s shaft", false),
    (" ate 2 loads of ", "'s buckshot", false),
    (" was perforated by ", "", false),
    (" was punctured by ", "", false),
    (" was ventilated by ", "", false),
    (" ate 8 loads of ", "'s buckshot", false),
    (" gets a natural disaster from ", "", false),
    (" rides ", "'s rocket", false),
    (" was gibbed by ", "'s rocket", false),
    (" was straw-cuttered by ", "", false),
    (" eats ", "'s pineapple", false),
    (" was gibbed by ", "'s grenade", false),
    (" was brutalized by ", "'s quad rocket", false),
    (" was smeared by ", "'s quad rocket", false),
    (" was hooked by ", "", false),
];

pub fn frag_event(value: &str) -> Result<FragEvent> {
    for p in DEATHS {
        if let Some(at) = value.find(p) {
            return Ok(FragEvent::Death { player: value[..at].to_string() });
        }
    }
    for p in WEAPON_SUICIDES {
        if let Some(at) = value.find(p) {
            return Ok(FragEvent::SuicideByWeapon { player: value[..at].to_string() });
        }
    }
    if let Some(player) = value.strip_suffix(" suicides") {
        return Ok(FragEvent::Suicide { player: player.to_string() });
    }
    for p in TEAMKILLS {
        if let Some(at) = value.find(p) {
            return Ok(FragEvent::Teamkill { killer: value[..at].to_string() });
        }
    }
    for p in TEAMKILLED {
        if let Some(at) = value.find(p) {
            return Ok(FragEvent::TeamkillByUnknown { victim: value[..at].to_string() });
        }
    }
    for (mid, end, killer_first) in FRAGS {
        let Some((first, rest)) = value.split_once(mid) else { continue };
        let second = if end.is_empty() {
            rest
        } else {
            let Some((s, _)) = rest.split_once(end) else { continue };
            s
        };
        let (k, v) = if killer_first { (first, second) } else { (second, first) };
        return Ok(FragEvent::Frag { killer: k.to_string(), victim: v.to_string() });
    }
    Err(anyhow!("not a frag message"))
}

pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
    let mut obituaries = vec![];
    let mut pos = 0;
    while let Ok(f) = frame::Info::from_data_and_index(data, pos) {
        if f.body_size != 0 {
            let mut cur = Cursor::new(&data[f.body_range.clone()]);
            if let Ok(MessageType::Print) = cur.read_message_type() {
                if let Ok(p) = cur.read_print() {
                    if p.id == PrintId::Medium && p.content.len() > 0 {
                        obituaries.push((p, f.clone()));
                    }
                }
            }
        }
        pos += f.size;
    }

    let mut score: HashMap<String, i32> = HashMap::new();
    for (p, f) in obituaries {
        let text = quake_text::bytestr::to_unicode(&p.content);
        let Ok(event) = FragEvent::try_from(text.trim_end()) else { continue };
        let (who, points) = match event {
            FragEvent::Frag { killer, victim: _ } => (killer, 1),
            FragEvent::Death { player } => (player, -1),
            FragEvent::SuicideByWeapon { player } => (player, -1),
            FragEvent::Suicide { player } => (player, -2),
            FragEvent::Teamkill { killer } => (killer, -1),
            FragEvent::TeamkillByUnknown { victim } => match team_killer(data, f.index, &victim) {
                Ok(killer) => (killer, -1),
                Err(_) => continue,
            },
        };
        *score.entry(who).or_insert(0) += points;
    }
    score
}

/// The frag updates that open the (non-empty) frames from the obituary on, at most three frames.
fn team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<String> {
    let mut pos = index;
    let mut frames: usize = 1;
    let mut numbers: Vec<u8> = vec![];
    while let Ok(f) = frame::Info::from_data_and_index(data, pos) {
        if frames >= 4 {
            break;
        }
        if f.body_size > 0 {
            let mut cur = Cursor::new(&data[f.body_range.clone()]);
            if frames == 1 {
                let _ = cur.read_print();
            }
            if let Ok(MessageType::UpdateFrags) = cur.read_message_type() {
                if let Ok(u) = cur.read_update_frags() {
                    numbers.push(u.player_number);
                }
            }
            frames += 1;
        }
        pos += f.size;
    }
    if numbers.is_empty() {
        return Err(anyhow!("no update"));
    }
    let clients = crate::clients::clients(data)?;
    let Some(victim) = clients.iter().find(|c| c.name == *victim_name) else {
        return Err(anyhow!("no victim"));
    };
    let killer = numbers
        .iter()
        .filter_map(|n| clients.iter().find(|c| c.number == *n))
        .find(|c| c.team == victim.team && c.name != victim.name);
    match killer {
        Some(c) => Ok(c.name.clone()),
        None => Err(anyhow!("no killer")),
    }
}
