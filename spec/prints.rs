//! Reference: the prints of a demo.
use std::io::Cursor;

use crate::qw::frame;
use crate::qw::message::message_type::ReadMessageType;
use crate::qw::message::print::ReadPrint;
use crate::qw::message::Print;
use crate::qw::prot::MessageType;

/// Every leading non-empty print of every message body, in order, consecutive duplicates once.
pub fn prints(data: &[u8]) -> Vec<Print> {
    let mut out: Vec<Print> = Vec::new();
    let mut pos = 0;
    loop {
        let Ok(f) = frame::Info::from_data_and_index(data, pos) else { break };
        if f.body_size != 0 {
            let mut cur = Cursor::new(&data[f.body_range.start..f.body_range.end]);
            loop {
                let is_print = match cur.read_message_type() {
                    Ok(t) => t == MessageType::Print,
                    Err(_) => false,
                };
                if !is_print {
                    break;
                }
                match cur.read_print() {
                    Ok(p) if !p.content.is_empty() => out.push(p),
                    _ => {}
                }
            }
        }
        pos += f.size;
    }
    out.dedup();
    out
}
