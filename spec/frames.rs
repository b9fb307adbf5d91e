//! Reference: layout of a demo frame, of the messages and of the protocol codes.
use std::io::{Cursor, Read};
use std::ops::Range;

use anyhow::{anyhow, Result};

use crate::qw::frame::Info;
use crate::qw::message::update_frags::UpdateFrags;
use crate::qw::message::update_ping::UpdatePing;
use crate::qw::message::Print;
use crate::qw::prot::{Command, HiddenMessage, MessageType, PrintId, Target};

/// [byte ms][byte type](4 bytes target mask for "multiple")(u32 size | 8 | nothing)(body)
pub fn frame_info(data: &[u8], index: usize) -> Result<Info> {
    if index > data.len() {
        return Err(anyhow!("outside"));
    }
    let d = &data[index..];
    if d.len() < 2 {
        return Err(anyhow!("short"));
    }
    let duration = d[0];
    let kind = d[1];
    let target = Target::from(&kind);
    let command = Command::from(&kind);
    let mut header = 2;
    if target == Target::Multiple {
        header += 4;
    }
    let mut body = 0usize;
    if command == Command::Read {
        if d.len() < header + 4 {
            return Err(anyhow!("short"));
        }
        body = u32::from_le_bytes([d[header], d[header + 1], d[header + 2], d[header + 3]]) as usize;
        header += 4;
    } else if command == Command::Set {
        body = 8;
    }
    if d.len() < header + body {
        return Err(anyhow!("truncated"));
    }
    Ok(Info {
        duration: u32::from(duration),
        target,
        command,
        index,
        size: header + body,
        header_size: header,
        header_range: Range { start: index, end: index + header },
        body_size: body,
        body_range: Range { start: index + header, end: index + header + body },
    })
}

fn byte(c: &mut Cursor<&[u8]>) -> Result<u8, ()> {
    let mut b = [0u8];
    match c.read_exact(&mut b) {
        Ok(()) => Ok(b[0]),
        Err(_) => Err(()),
    }
}

fn short(c: &mut Cursor<&[u8]>) -> Result<u16, ()> {
    let mut b = [0u8, 0];
    match c.read_exact(&mut b) {
        Ok(()) => Ok(u16::from_le_bytes(b)),
        Err(_) => Err(()),
    }
}

/// [byte level][bytes up to and without the first zero]
pub fn print(value: &[u8]) -> std::io::Result<Print> {
    let mut c = Cursor::new(value);
    let bad = || std::io::Error::from(std::io::ErrorKind::Other);
    let Ok(id) = byte(&mut c) else { return Err(bad()) };
    let mut content = vec![];
    loop {
        match byte(&mut c) {
            Err(_) => return Err(bad()),
            Ok(0) => return Ok(Print { id: PrintId::from(&id), content }),
            Ok(b) => content.push(b),
        }
    }
}

/// [byte player][short frags]
pub fn update_frags(value: &[u8]) -> std::io::Result<UpdateFrags> {
    let mut c = Cursor::new(value);
    let bad = || std::io::Error::from(std::io::ErrorKind::Other);
    let Ok(player_number) = byte(&mut c) else { return Err(bad()) };
    let Ok(frags) = short(&mut c) else { return Err(bad()) };
    Ok(UpdateFrags { player_number, frags })
}

/// [byte player][short ping], followed by one more byte (the type of the next message)
pub fn update_ping(value: &[u8]) -> std::io::Result<UpdatePing> {
    let mut c = Cursor::new(value);
    let bad = || std::io::Error::from(std::io::ErrorKind::Other);
    let Ok(player_number) = byte(&mut c) else { return Err(bad()) };
    let Ok(ping) = short(&mut c) else { return Err(bad()) };
    if byte(&mut c).is_err() {
        return Err(bad());
    }
    Ok(UpdatePing { player_number, ping })
}

pub fn print_byte_size(p: &Print) -> usize {
    1 + p.content.len() + 1
}

pub fn target(v: &u8) -> Target {
    match *v % 8 {
        3 => Target::Multiple,
        4 => Target::Single,
        5 => Target::Stats,
        6 => Target::All,
        _ => Target::None,
    }
}

pub fn command(v: &u8) -> Command {
    match *v % 8 {
        0 => Command::Qwd,
        2 => Command::Set,
        7 => Command::Empty,
        _ => Command::Read,
    }
}

pub fn print_id(v: &u8) -> PrintId {
    match *v {
        0 => PrintId::Low,
        1 => PrintId::Medium,
        2 => PrintId::High,
        3 => PrintId::Chat,
        _ => PrintId::Unknown,
    }
}

pub fn hidden_message(v: &u16) -> HiddenMessage {
    match *v {
        0 => HiddenMessage::AntilagPosition,
        1 => HiddenMessage::Usercmd,
        2 => HiddenMessage::UsercmdWeapons,
        3 => HiddenMessage::Demoinfo,
        4 => HiddenMessage::CommentaryTrack,
        5 => HiddenMessage::CommentaryData,
        6 => HiddenMessage::CommentaryTextSegment,
        7 => HiddenMessage::Dmgdone,
        8 => HiddenMessage::UsercmdWeaponsSs,
        9 => HiddenMessage::UsercmdWeaponInstruction,
        10 => HiddenMessage::PausedDuration,
        65535 => HiddenMessage::Extended,
        _ => HiddenMessage::Unknown,
    }
}

pub fn message_type(v: &u8) -> MessageType {
    match *v {
        0 => MessageType::Bad,
        1 => MessageType::Nop,
        2 => MessageType::Disconnect,
        3 => MessageType::UpdateStat,
        4 => MessageType::NqVersion,
        5 => MessageType::NqSetview,
        6 => MessageType::Sound,
        7 => MessageType::NqTime,
        8 => MessageType::Print,
        9 => MessageType::Stufftext,
        10 => MessageType::SetAngle,
        11 => MessageType::ServerData,
        12 => MessageType::Lightstyle,
        13 => MessageType::NqUpdateName,
        14 => MessageType::UpdateFrags,
        15 => MessageType::NqClientdata,
        16 => MessageType::StopSound,
        17 => MessageType::NqUpdateColors,
        18 => MessageType::NqParticle,
        19 => MessageType::Damage,
        20 => MessageType::SpawnStatic,
        21 => MessageType::FteSpawnStatic2,
        22 => MessageType::SpawnBaseline,
        23 => MessageType::TempEntity,
        24 => MessageType::SetPause,
        25 => MessageType::NqSignonnum,
        26 => MessageType::CenterPrint,
        27 => MessageType::Killedmonster,
        28 => MessageType::FoundSecret,
        29 => MessageType::SpawnStaticSound,
        30 => MessageType::Intermission,
        31 => MessageType::Finale,
        32 => MessageType::Cdtrack,
        33 => MessageType::Sellscreen,
        34 => MessageType::Smallkick,
        35 => MessageType::Bigkick,
        36 => MessageType::UpdatePing,
        37 => MessageType::UpdateEntertime,
        38 => MessageType::UpdateStatLong,
        39 => MessageType::Muzzleflash,
        40 => MessageType::UpdateUserinfo,
        41 => MessageType::Download,
        42 => MessageType::Playerinfo,
        43 => MessageType::Nails,
        44 => MessageType::ChokeCount,
        45 => MessageType::Modellist,
        46 => MessageType::Soundlist,
        47 => MessageType::Packetentities,
        48 => MessageType::Deltapacketentities,
        49 => MessageType::Maxspeed,
        50 => MessageType::Entgravity,
        51 => MessageType::Setinfo,
        52 => MessageType::Serverinfo,
        53 => MessageType::UpdatePl,
        54 => MessageType::Nails2,
        60 => MessageType::FteModellistshort,
        66 => MessageType::FteSpawnbaseline2,
        69 => MessageType::EndOfDemo,
        83 => MessageType::QizmoVoice,
        84 => MessageType::FteVoiceChat,
        _ => MessageType::Unknown,
    }
}
