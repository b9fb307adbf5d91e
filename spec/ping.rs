//! Reference: average ping per player number.
use std::collections::HashMap;
use std::io::Cursor;

use anyhow::{anyhow, Result};

use crate::qw::frame;
use crate::qw::message::message_type::ReadMessageType;
use crate::qw::message::update_ping::ReadUpdatePing;
use crate::qw::prot::MessageType;

pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
    let mut samples = 0;
    let mut pos = 0;
    let mut seen: HashMap<u8, Vec<u16>> = HashMap::new();
    while let Ok(f) = frame::Info::from_data_and_index(data, pos) {
        if f.body_size > 0 {
            let mut cur = Cursor::new(&data[f.body_range.clone()]);
            let mut sampled = false;
            loop {
                let Ok(MessageType::UpdatePing) = cur.read_message_type() else { break };
                if let Ok(u) = cur.read_update_ping() {
                    seen.entry(u.player_number).or_default().push(u.ping);
                    cur.set_position(cur.position() + 2);
                    sampled = true;
                }
            }
            if sampled {
                samples += 1;
            }
        }
        if samples >= 8 {
            break;
        }
        pos += f.size;
    }
    if seen.is_empty() {
        return Err(anyhow!("no pings"));
    }
    let mut out = HashMap::new();
    for (number, values) in seen.iter() {
        let total: u64 = values.iter().map(|v| u64::from(*v)).sum();
        out.insert(*number, (total / values.len() as u64) as u32);
    }
    Ok(out)
}
