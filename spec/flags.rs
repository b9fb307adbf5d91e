//! Reference: classification of flag messages and the counters per player.
use std::collections::HashMap;
use std::io::Cursor;

use anyhow::{anyhow, Result};
use bstr::ByteSlice;

use crate::qw::flagevent::FlagEvent;
use crate::qw::frame;
use crate::qw::message::message_type::ReadMessageType;
use crate::qw::message::print::ReadPrint;
use crate::qw::prot::{MessageType, PrintId};

const CAPTURED: [&str; 2] = [" ãáðôõòåä the ÒÅÄ flag!\n", " ãáðôõòåä the ÂÌÕÅ flag!\n"];
const DEFENDS: [&str; 2] = [" defends the ÒÅÄ flag\n", " defends the ÂÌÕÅ flag\n"];
const DEFENDS_CARRIER: [&str; 2] = [" defends ÒÅÄ's flag carrier\n", " defends ÂÌÕÅ's flag carrier\n"];
const DEFENDS_CARRIER_AGGR: [&str; 2] = [
    " defends ÒÅÄ's flag carrier against an aggressive enemy\n",
    " defends ÂÌÕÅ's flag carrier against an aggressive enemy\n",
];
const GOT: [&str; 2] = [" çïô the ÒÅÄ flag!\n", " çïô the ÂÌÕÅ flag!\n"];
const RETURNED: [&str; 2] = [" òåôõòîåä the ÒÅÄ flag!\n", " òåôõòîåä the ÂÌÕÅ flag!\n"];
const ASSISTS: [&str; 2] = [
    " gets an assist for returning his flag!\n",
    " gets an assist for fragging the flag carrier!\n",
];

pub fn flag_event(value: &str) -> Result<FlagEvent> {
    for p in CAPTURED {
        if let Some(at) = value.find(p) {
            return Ok(FlagEvent::CapturedFlag { player: value[..at].to_string() });
        }
    }
    for p in DEFENDS {
        if let Some(at) = value.find(p) {
            return Ok(FlagEvent::DefendsFlag { player: value[..at].to_string() });
        }
    }
    for p in DEFENDS_CARRIER_AGGR {
        if let Some(at) = value.find(p) {
            return Ok(FlagEvent::DefendsFlagCarrierVsAggressive { player: value[..at].to_string() });
        }
    }
    for p in DEFENDS_CARRIER {
        if let Some(at) = value.find(p) {
            return Ok(FlagEvent::DefendsFlagCarrier { player: value[..at].to_string() });
        }
    }
    for p in GOT {
        if let Some(at) = value.find(p) {
            return Ok(FlagEvent::GotFlag { player: value[..at].to_string() });
        }
    }
    for p in RETURNED {
        if let Some(at) = value.find(p) {
            return Ok(FlagEvent::ReturnedFlag { player: value[..at].to_string() });
        }
    }
    for p in ASSISTS {
        if let Some(at) = value.find(p) {
            return Ok(FlagEvent::ReturnedFlagAssist { player: value[..at].to_string() });
        }
    }
    Err(anyhow!("not a flag message"))
}

#[derive(Default)]
pub struct PlayerFlagEvents {
    pub captures: u32,
    pub pickups: u32,
    pub returns: u32,
    pub carrier_frags: u32,
    pub defends: u32,
    pub carrier_defends: u32,
    pub carrier_defends_vs_aggressive: u32,
}

pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEvents> {
    let mut messages: Vec<Vec<u8>> = vec![];
    let mut pos = 0;
    while let Ok(f) = frame::Info::from_data_and_index(data, pos) {
        if f.body_size > 0 && data[f.body_range.clone()].find(b"flag").is_some() {
            let mut cur = Cursor::new(&data[f.body_range.clone()]);
            let mut open: Vec<u8> = vec![];
            while let Ok(t) = cur.read_message_type() {
                if t != MessageType::Print {
                    continue;
                }
                let Ok(p) = cur.read_print() else { continue };
                if p.id != PrintId::High || p.content.is_empty() {
                    continue;
                }
                let joined = !open.ends_with(b"\n") && is_suffix(&p.content);
                if open.is_empty() || joined {
                    open.extend_from_slice(&p.content);
                } else {
                    messages.push(open);
                    open = p.content.clone();
                }
            }
            if !open.is_empty() {
                messages.push(open);
            }
        }
        pos += f.size;
    }

    let mut out: HashMap<String, PlayerFlagEvents> = HashMap::new();
    for m in messages {
        let text = quake_text::bytestr::to_unicode(&m);
        let Ok(event) = FlagEvent::try_from(text.as_str()) else { continue };
        match event {
            FlagEvent::CapturedFlag { player } => out.entry(player).or_default().captures += 1,
            FlagEvent::DefendsFlag { player } => out.entry(player).or_default().defends += 1,
            FlagEvent::DefendsFlagCarrier { player } => out.entry(player).or_default().carrier_defends += 1,
            FlagEvent::DefendsFlagCarrierVsAggressive { player } => {
                out.entry(player).or_default().carrier_defends_vs_aggressive += 1
            }
            FlagEvent::GotFlag { player } => out.entry(player).or_default().pickups += 1,
            FlagEvent::ReturnedFlag { player } => out.entry(player).or_default().returns += 1,
            FlagEvent::ReturnedFlagAssist { player } => out.entry(player).or_default().carrier_frags += 1,
        }
    }
    out
}

fn is_suffix(print: &[u8]) -> bool {
    let text = quake_text::bytestr::to_unicode(print);
    RETURNED.iter().any(|n| text.ends_with(n))
        || GOT.iter().any(|n| text.ends_with(n))
        || CAPTURED.iter().any(|n| text.ends_with(n))
}
