"""Edits of /repo that keep its behaviour; every check has to stay quiet on each of them (corpus/run.py)."""
R = []


def r(name, *edits):
    R.append((name, edits))


r("frags_helper_points", ("src/frags.rs", '''                FragEvent::Frag { killer, .. } => {
                    let killer = frags.entry(killer).or_insert(0);
                    *killer += 1;
                }
                FragEvent::Death { player } => {
                    let player = frags.entry(player).or_insert(0);
                    *player -= 1;
                }
                FragEvent::Suicide { player } => {
                    let player = frags.entry(player).or_insert(0);
                    *player -= 2;
                }
                FragEvent::SuicideByWeapon { player } => {
                    let player = frags.entry(player).or_insert(0);
                    *player -= 1;
                }
                FragEvent::Teamkill { killer } => {
                    let killer = frags.entry(killer).or_insert(0);
                    *killer -= 1;
                }
                FragEvent::TeamkillByUnknown { victim } => {
                    if let Ok(name) = find_team_killer(data, frame_info.index, &victim) {
                        let killer = frags.entry(name).or_insert(0);
                        *killer -= 1;
                    }
                }
''', '''                FragEvent::Frag { killer, .. } => add_points(&mut frags, killer, 1),
                FragEvent::Death { player } | FragEvent::SuicideByWeapon { player } => {
                    add_points(&mut frags, player, -1)
                }
                FragEvent::Suicide { player } => add_points(&mut frags, player, -2),
                FragEvent::Teamkill { killer } => add_points(&mut frags, killer, -1),
                FragEvent::TeamkillByUnknown { victim } => {
                    if let Ok(name) = find_team_killer(data, frame_info.index, &victim) {
                        add_points(&mut frags, name, -1);
                    }
                }
'''), ("src/frags.rs", "fn find_team_killer(", '''fn add_points(frags: &mut HashMap<String, i32>, name: String, points: i32) {
    *frags.entry(name).or_insert(0) += points;
}

fn find_team_killer('''))

r("frags_loop_form", ("src/frags.rs", '''    while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
        if frame_info.body_size == 0 {
            index += frame_info.size;
            continue;
        }

        let mut body = Cursor::new(&data[frame_info.clone().body_range]);

        if body
            .read_message_type()
            .is_ok_and(|t| t == MessageType::Print)
        {
            if let Ok(p) = body.read_print() {
                if !p.content.is_empty() && PrintId::Medium == p.id {
                    print_frames.push((p, frame_info.clone()))
                }
            }
        }

        index += frame_info.size;
    }
''', '''    loop {
        let Ok(frame_info) = frame::Info::from_data_and_index(data, index) else {
            break;
        };
        index += frame_info.size;

        if frame_info.body_size > 0 {
            let mut body = Cursor::new(&data[frame_info.body_range.clone()]);
            let is_print = matches!(body.read_message_type(), Ok(MessageType::Print));

            if is_print {
                if let Ok(p) = body.read_print() {
                    if PrintId::Medium == p.id && !p.content.is_empty() {
                        print_frames.push((p, frame_info));
                    }
                }
            }
        }
    }
'''))

r("frags_store_index", ("src/frags.rs", "let mut print_frames: Vec<(Print, frame::Info)> = vec![];", "let mut print_frames: Vec<(Print, usize)> = vec![];"),
  ("src/frags.rs", "print_frames.push((p, frame_info.clone()))", "print_frames.push((p, frame_info.index))"),
  ("src/frags.rs", "for (print, frame_info) in print_frames {", "for (print, frame_index) in print_frames {"),
  ("src/frags.rs", "find_team_killer(data, frame_info.index, &victim)", "find_team_killer(data, frame_index, &victim)"))

r("frags_killer_loop", ("src/frags.rs", '''    let killer = frag_update_player_numbers
        .iter()
        .filter_map(|player_number| clients.iter().find(|c| c.number == *player_number))
        .find(|c| c.team == victim_client.team && c.name != victim_client.name)
        .map(|c| c.name.clone());

    match killer {
        Some(killer) => Ok(killer),
        None => Err(e!("Unable to find team killer")),
    }
''', '''    for player_number in frag_update_player_numbers {
        let Some(candidate) = clients.iter().find(|c| c.number == player_number) else {
            continue;
        };

        if candidate.team == victim_client.team && candidate.name != victim_client.name {
            return Ok(candidate.name.clone());
        }
    }

    Err(e!("Unable to find team killer"))
'''))

r("frags_killer_ok_or", ("src/frags.rs", '''    match killer {
        Some(killer) => Ok(killer),
        None => Err(e!("Unable to find team killer")),
    }
''', '''    killer.ok_or_else(|| e!("Unable to find team killer"))
'''))

r("frags_while_cond", ("src/frags.rs", '''    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
        if frame_count >= MAX_FRAME_COUNT {
            break;
        } else if info.body_size == 0 {
''', '''    while frame_count < MAX_FRAME_COUNT {
        let Ok(info) = frame::Info::from_data_and_index(data, index) else {
            break;
        };
        if info.body_size == 0 {
'''))

r("frags_count_from_zero", ("src/frags.rs", "let mut frame_count: usize = 1;", "let mut frame_count: usize = 0;"),
  ("src/frags.rs", "const MAX_FRAME_COUNT: usize = 4;", "const MAX_FRAME_COUNT: usize = 3;"),
  ("src/frags.rs", "if frame_count == 1 {", "if frame_count == 0 {"))

r("frags_data_last", ("src/frags.rs", '''        let content_u = quake_text::bytestr::to_unicode(&print.content);

        match FragEvent::try_from(content_u.trim_end()) {
            Ok(event) => match event {''', '''        let content = quake_text::bytestr::to_unicode(&print.content);
        let Ok(event) = FragEvent::try_from(content.trim_end()) else {
            continue;
        };

        {
            match event {'''), ("src/frags.rs", '''            },
            Err(_e) => {
                // println!("UNKNOWN {:?}", e);
            }
        }
    }

    frags
''', '''            }
        }
    }

    frags
'''))

r("prints_continue", ("src/prints.rs", '''        if info.body_size > 0 {
            let mut body = Cursor::new(&data[info.body_range]);

            while body
                .read_message_type()
                .is_ok_and(|t| t == MessageType::Print)
            {
                if let Ok(print) = body.read_print() {
                    if !print.content.is_empty() {
                        prints.push(print);
                    }
                }
            }
        }

        index += info.size;
''', '''        index += info.size;

        if info.body_size == 0 {
            continue;
        }

        let mut body = Cursor::new(&data[info.body_range]);

        while let Ok(MessageType::Print) = body.read_message_type() {
            match body.read_print() {
                Ok(print) if !print.content.is_empty() => prints.push(print),
                _ => {}
            }
        }
'''))

r("prints_helper", ("src/prints.rs", '''            let mut body = Cursor::new(&data[info.body_range]);

            while body
                .read_message_type()
                .is_ok_and(|t| t == MessageType::Print)
            {
                if let Ok(print) = body.read_print() {
                    if !print.content.is_empty() {
                        prints.push(print);
                    }
                }
            }
''', '''            prints.extend(read_leading_prints(&data[info.body_range]));
'''), ("src/prints.rs", "pub fn prints(", '''fn read_leading_prints(frame_body: &[u8]) -> Vec<Print> {
    let mut result = Vec::new();
    let mut body = Cursor::new(frame_body);

    while body
        .read_message_type()
        .is_ok_and(|t| t == MessageType::Print)
    {
        if let Ok(print) = body.read_print() {
            if !print.content.is_empty() {
                result.push(print);
            }
        }
    }

    result
}

pub fn prints('''))

r("prints_helper_mut", ("src/prints.rs", '''            let mut body = Cursor::new(&data[info.body_range]);

            while body
                .read_message_type()
                .is_ok_and(|t| t == MessageType::Print)
            {
                if let Ok(print) = body.read_print() {
                    if !print.content.is_empty() {
                        prints.push(print);
                    }
                }
            }
''', '''            collect_prints(&data[info.body_range], &mut prints);
'''), ("src/prints.rs", "pub fn prints(", '''fn collect_prints(frame_body: &[u8], prints: &mut Vec<Print>) {
    let mut body = Cursor::new(frame_body);

    while body
        .read_message_type()
        .is_ok_and(|t| t == MessageType::Print)
    {
        let Ok(print) = body.read_print() else {
            continue;
        };
        if !print.content.is_empty() {
            prints.push(print);
        }
    }
}

pub fn prints('''))

r("prints_dedup_by", ("src/prints.rs", "    prints.dedup();\n", "    prints.dedup_by(|a, b| a == b);\n"))
r("prints_dedup_on_push", ("src/prints.rs", '''                    if !print.content.is_empty() {
                        prints.push(print);
                    }
''', '''                    if !print.content.is_empty() && prints.last() != Some(&print) {
                        prints.push(print);
                    }
'''), ("src/prints.rs", "    prints.dedup();\n", ""))

r("flags_helper_message", ("src/flags.rs", '''        let mut body = Cursor::new(&data[frame_info.clone().body_range]);
        let mut current_print: Vec<u8> = vec![];
''', '''        let frame_body = &data[frame_info.body_range.clone()];
        let mut body = Cursor::new(frame_body);
        let mut current_print: Vec<u8> = Vec::new();
'''))
r("flags_invert", ("src/flags.rs", '''            if mt == MessageType::Print {
                if let Ok(p) = body.read_print() {
                    if p.id == PrintId::High && !p.content.is_empty() {
                        let is_continuation =
                            !current_print.ends_with(b"\\n") && is_message_suffix(&p.content);

                        if !current_print.is_empty() && !is_continuation {
                            prints.push(current_print);
                            current_print = vec![];
                        }

                        current_print.extend_from_slice(&p.content);
                    }
                }
            }
''', '''            if mt != MessageType::Print {
                continue;
            }

            let Ok(p) = body.read_print() else {
                continue;
            };

            if p.id != PrintId::High || p.content.is_empty() {
                continue;
            }

            let is_continuation =
                !current_print.ends_with(b"\\n") && is_message_suffix(&p.content);

            if !current_print.is_empty() && !is_continuation {
                prints.push(std::mem::take(&mut current_print));
            }

            current_print.extend(p.content.iter());
'''))
r("flags_entry_once", ("src/flags.rs", '''                FlagEvent::CapturedFlag { player } => {
                    let pfe = player_flag_events.entry(player).or_default();
                    pfe.captures += 1;
                }
                FlagEvent::DefendsFlag { player } => {
                    let pfe = player_flag_events.entry(player).or_default();
                    pfe.defends += 1;
                }
''', '''                FlagEvent::DefendsFlag { player } => {
                    player_flag_events.entry(player).or_default().defends += 1;
                }
                FlagEvent::CapturedFlag { player } => {
                    player_flag_events.entry(player).or_default().captures += 1;
                }
'''))
r("flags_suffix_chain", ("src/flags.rs", '''    [
        flagprint::X_RETURNED_FLAG.to_vec(),
        flagprint::X_GOT_FLAG.to_vec(),
        flagprint::X_CAPTURED_FLAG.to_vec(),
    ]
    .iter()
    .flatten()
    .any(|n| quake_text::bytestr::to_unicode(print).ends_with(n))
''', '''    let print_u = quake_text::bytestr::to_unicode(print);

    flagprint::X_CAPTURED_FLAG
        .iter()
        .chain(flagprint::X_GOT_FLAG.iter())
        .chain(flagprint::X_RETURNED_FLAG.iter())
        .any(|suffix| print_u.ends_with(suffix))
'''))
r("flags_contains_str", ("src/flags.rs", '''data[frame_info.clone().body_range].find(b"flag").is_none()''', '''!data[frame_info.clone().body_range].contains_str("flag")'''))
r("flagevent_if_chain", ("src/qw/flagevent.rs", '''        for (index, needles) in print_types {
            if let Some(pos) = needles.iter().find_map(|n| value.find(n)) {
                let player = value[..pos].to_string();
''', '''        for (index, needles) in print_types.iter() {
            let hit = needles.iter().find_map(|n| value.find(n));
            if let Some(pos) = hit {
                let (name, _) = value.split_at(pos);
                let player = name.to_string();
'''))
r("flagevent_helper", ("src/qw/flagevent.rs", '''            if let Some(pos) = needles.iter().find_map(|n| value.find(n)) {
                let player = value[..pos].to_string();
''', '''            if let Some(player) = player_before(value, &needles) {
'''), ("src/qw/flagevent.rs", '''impl TryFrom<&str> for FlagEvent {''', '''fn player_before(value: &str, needles: &[&str]) -> Option<String> {
    needles
        .iter()
        .find_map(|n| value.find(n))
        .map(|pos| value[..pos].to_string())
}

impl TryFrom<&str> for FlagEvent {'''))
r("fragevent_helper", ("src/qw/fragevent.rs", '''        if let Some(pos) = X_DEATH.iter().find_map(|&p| value.find(p)) {
            return Ok(FragEvent::Death {
                player: value[..pos].to_string(),
            });
        } else if let Some(pos) = X_SUICIDE_BY_WEAPON.iter().find_map(|&p| value.find(p)) {
            return Ok(FragEvent::SuicideByWeapon {
                player: value[..pos].to_string(),
            });
        }''', '''        if let Some(player) = text_before_any(value, &X_DEATH) {
            return Ok(FragEvent::Death { player });
        } else if let Some(player) = text_before_any(value, &X_SUICIDE_BY_WEAPON) {
            return Ok(FragEvent::SuicideByWeapon { player });
        }'''), ("src/qw/fragevent.rs", "fn pattern_match(", '''fn text_before_any(value: &str, patterns: &[&str]) -> Option<String> {
    let pos = patterns.iter().find_map(|p| value.find(p))?;
    Some(value[..pos].to_string())
}

fn pattern_match('''))
r("fragevent_two_loops", ("src/qw/fragevent.rs", '''        for p in [X_FRAG_Y.to_vec(), Y_FRAG_X.to_vec()].concat() {
            if let Some((x, y)) = pattern_match(value, p) {
                let (killer, victim) = match X_FRAG_Y.contains(&p) {
                    true => (x, y),
                    false => (y, x),
                };
                return Ok(FragEvent::Frag { killer, victim });
            }
        }
''', '''        for pattern in X_FRAG_Y {
            if let Some((killer, victim)) = pattern_match(value, pattern) {
                return Ok(FragEvent::Frag { killer, victim });
            }
        }

        for pattern in Y_FRAG_X {
            if let Some((victim, killer)) = pattern_match(value, pattern) {
                return Ok(FragEvent::Frag { killer, victim });
            }
        }
'''))
r("fragevent_pattern_if", ("src/qw/fragevent.rs", '''    let (x, y) = match pattern.contains(WILDCARD) {
        true => {
            let (prefix, suffix) = pattern.split_once(WILDCARD)?;
            let (x, rest) = value.split_once(prefix)?;
            let (y, _) = rest.split_once(suffix)?;
            (x, y)
        }
        false => value.split_once(pattern)?,
    };
''', '''    let (x, y) = if let Some((prefix, suffix)) = pattern.split_once(WILDCARD) {
        let (x, rest) = value.split_once(prefix)?;
        let (y, _) = rest.split_once(suffix)?;
        (x, y)
    } else {
        value.split_once(pattern)?
    };
'''))
r("ping_integer_mean", ("src/ping.rs", '''        let avg_ping = (pings_sum / pings.len() as u64) as u32;
''', '''        let n = pings.len() as u64;
        let avg_ping = u32::try_from(pings_sum / n).unwrap_or(u32::MAX);
'''))
r("ping_f64_mean", ("src/ping.rs", '''        let avg_ping = (pings_sum / pings.len() as u64) as u32;
''', '''        let avg_ping = (pings_sum as f64 / pings.len() as f64) as u32;
'''))
r("ping_collect", ("src/ping.rs", '''    let mut average_ping: HashMap<u8, u32> = HashMap::new();

    for (pnum, pings) in total_pings.iter() {
        let pings_sum = pings.iter().map(|p| u64::from(*p)).sum::<u64>();
        let avg_ping = (pings_sum / pings.len() as u64) as u32;
        average_ping.insert(*pnum, avg_ping);
    }

    Ok(average_ping)
''', '''    let average_ping = total_pings
        .iter()
        .map(|(pnum, pings)| (*pnum, average(pings)))
        .collect();

    Ok(average_ping)
'''), ("src/ping.rs", "pub fn ping_per_player_number", '''fn average(pings: &[u16]) -> u32 {
    let sum: u64 = pings.iter().map(|p| u64::from(*p)).sum();
    (sum / pings.len() as u64) as u32
}

pub fn ping_per_player_number'''))
r("ping_flat", ("src/ping.rs", '''    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
        if info.body_size > 0 {
''', '''    while sample_count < max_samples {
        let Ok(info) = frame::Info::from_data_and_index(data, index) else {
            break;
        };

        if info.body_size > 0 {
'''), ("src/ping.rs", '''        if sample_count >= max_samples {
            break;
        }

''', ""))
r("ping_helper", ("src/ping.rs", '''            let mut body = Cursor::new(&data[info.body_range.clone()]);
            let mut did_ping_update = false;

            while body
                .read_message_type()
                .is_ok_and(|t| t == MessageType::UpdatePing)
            {
                if let Ok(u) = body.read_update_ping() {
                    let pings = total_pings.entry(u.player_number).or_default();
                    pings.push(u.ping);

                    body.set_position(body.position() + 2); // skip UpdatePl
                    did_ping_update = true;
                }
            }

            if did_ping_update {
                sample_count += 1;
            }
''', '''            if read_pings(&data[info.body_range.clone()], &mut total_pings) {
                sample_count += 1;
            }
'''), ("src/ping.rs", "pub fn ping_per_player_number", '''fn read_pings(frame_body: &[u8], total_pings: &mut HashMap<u8, Vec<u16>>) -> bool {
    let mut body = Cursor::new(frame_body);
    let mut did_ping_update = false;

    while body
        .read_message_type()
        .is_ok_and(|t| t == MessageType::UpdatePing)
    {
        if let Ok(u) = body.read_update_ping() {
            total_pings.entry(u.player_number).or_default().push(u.ping);
            body.set_position(body.position() + 2); // skip UpdatePl
            did_ping_update = true;
        }
    }

    did_ping_update
}

pub fn ping_per_player_number'''))

r("duration_while", ("src/duration.rs", '''    while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
        if index >= target_offset {
            break;
        }

        total_ms += u64::from(frame_info.duration);
        index += frame_info.size;
    }
''', '''    while index < target_offset {
        match frame::Info::from_data_and_index(data, index) {
            Ok(info) => {
                index += info.size;
                total_ms += u64::from(info.duration);
            }
            Err(_) => break,
        }
    }
'''))
r("duration_helper_hoony", ("src/duration.rs", '''    if serverinfo(data).is_ok_and(|s| s.mode == Some("hoonymode".to_string())) {
        return Ok(Duration::ZERO);
    }
''', '''    if is_hoonymode(data) {
        return Ok(Duration::ZERO);
    }
'''), ("src/duration.rs", '''    if serverinfo(data).is_ok_and(|s| s.mode == Some("hoonymode".to_string())) {
        return match_duration_from_seeking(data);
    }
''', '''    if is_hoonymode(data) {
        return match_duration_from_seeking(data);
    }
'''), ("src/duration.rs", "fn duration_until_offset(", '''fn is_hoonymode(data: &[u8]) -> bool {
    match serverinfo(data) {
        Ok(settings) => settings.mode.as_deref() == Some("hoonymode"),
        Err(_) => false,
    }
}

fn duration_until_offset('''))
r("duration_needles", ("src/duration.rs", '''        .rfind(NEEDLE_MATCH_OVER)
        .unwrap_or_else(|| data.rfind(NEEDLE_STANDBY).unwrap_or(data.len()));
''', '''        .rfind(NEEDLE_MATCH_OVER)
        .or_else(|| data.rfind(NEEDLE_STANDBY))
        .unwrap_or(data.len());
'''), ("src/duration.rs", '''    const NEEDLE_MATCH_OVER: [u8; 0x11] = [
        0x54, 0x68, 0x65, 0x20, 0x6D, 0x61, 0x74, 0x63, 0x68, 0x20, 0x69, 0x73, 0x20, 0x6F, 0x76,
        0x65, 0x72, // "The match is over"
    ];
''', '''    const NEEDLE_MATCH_OVER: &[u8] = b"The match is over";
'''))
r("duration_match", ("src/duration.rs", '''    match_duration_from_ktxstats(data).or_else(|_| match_duration_from_seeking(data))
''', '''    match match_duration_from_ktxstats(data) {
        Ok(duration) => Ok(duration),
        Err(_) => match_duration_from_seeking(data),
    }
'''))
r("duration_order", ("src/duration.rs", '''    let end = demo_duration(data)?;
    let begin = countdown_duration(data).unwrap_or(Duration::ZERO);
    Ok(end.saturating_sub(begin))
''', '''    let begin = countdown_duration(data).unwrap_or_default();
    demo_duration(data).map(|end| end.saturating_sub(begin))
'''))
r("serverinfo_window", ("src/serverinfo.rs", '''    let Some((from, to)) = bytesextra::offsets_between(
        &data[..data.len().min(MAX_OFFSET + MAX_SIZE)],
        br#"fullserverinfo ""#,
        &[b'"'],
    ) else {
        return Err(e!("Serverinfo not found"));
    };
    Ok(quake_text::bytestr::to_utf8(&data[from..to]))
''', '''    let header = data.get(..MAX_OFFSET + MAX_SIZE).unwrap_or(data);

    match bytesextra::offsets_between(header, br#"fullserverinfo ""#, b"\\"") {
        Some((from, to)) => Ok(quake_text::bytestr::to_utf8(&header[from..to])),
        None => Err(e!("Serverinfo not found")),
    }
'''))
r("bytesextra_map", ("src/bytesextra.rs", '''    let index_from = data.find(a)? + a.len();
    let index_to = index_from + data[index_from..].find(b)?;

    if index_to > index_from {
        Some((index_from, index_to))
    } else {
        None
    }
''', '''    let from = data.find(a)? + a.len();
    let length = data[from..].find(b)?;

    if length == 0 {
        return None;
    }

    Some((from, from + length))
'''))
r("clientinfo_loop", ("src/clientinfo.rs", '''    while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
        .find(br#"\\name\\"#)
        .map(|o| offset + o)
    {
''', '''    loop {
        let window_end = data.len().min(offset + MAX_LOOKAHEAD);
        let Some(relative) = data[offset..window_end].find(br#"\\name\\"#) else {
            break;
        };
        let name_offset = offset + relative;

'''))
r("clientinfo_len", ("src/clientinfo.rs", '''        if !(MIN_LEN..=MAX_LEN).contains(&(to - from)) {
            break;
        }

        result.push(quake_text::bytestr::to_unicode(&data[from..to]));
        offset = to;
''', '''        let info = &data[from..to];

        if info.len() < MIN_LEN || info.len() > MAX_LEN {
            break;
        }

        offset = to;
        result.push(quake_text::bytestr::to_unicode(info));
'''))
r("clientinfo_map", ("src/clientinfo.rs", '''    let info: Vec<Clientinfo> = clientinfo_strings(data)?
        .iter()
        .map(|s| Clientinfo::from(s.as_str()))
        .collect();
    Ok(info)
''', '''    let strings = clientinfo_strings(data)?;
    let mut info = Vec::with_capacity(strings.len());

    for string in &strings {
        info.push(Clientinfo::from(string.as_str()));
    }

    Ok(info)
'''))
r("clients_numbering", ("src/clients.rs", '''        .map(|(number, info)| {
            let mut client = Client::from(info);
            client.number = number;
            client
        })
''', '''        .map(|(number, info)| Client {
            number,
            ..Client::from(info)
        })
'''))
r("clients_into_iter", ("src/clients.rs", '''    let players = clients(data)?
        .iter()
        .filter(|c| !c.is_spectator)
        .cloned()
        .collect();
    Ok(players)
''', '''    let mut players = clients(data)?;
    players.retain(|c| !c.is_spectator);
    Ok(players)
'''), ("src/clients.rs", '''    let spectators = clients(data)?
        .iter()
        .filter(|c| c.is_spectator)
        .cloned()
        .collect();
    Ok(spectators)
''', '''    Ok(clients(data)?.into_iter().filter(|c| c.is_spectator).collect())
'''))
r("clients_bot_or", ("src/clients.rs", '''    if player_clients(data)?.iter().any(|c| c.is_bot) {
        return Ok(true);
    }

    Ok(data.rfind(br#""bot": {"#).is_some())
''', '''    let has_bot_client = player_clients(data)?.iter().any(|c| c.is_bot);
    Ok(has_bot_client || data.contains_str(br#""bot": {"#))
'''))
r("clients_not_all", ("src/clients.rs", "Ok(player_clients(data)?.iter().any(|c| !c.is_bot))", "let players = player_clients(data)?;\n    Ok(!players.iter().all(|c| c.is_bot))"))
r("clients_names_helper", ("src/clients.rs", '''    let names = player_clients(data)?
        .iter()
        .map(|c| c.name.clone())
        .collect::<Vec<String>>();
    Ok(unicode::sort(&names))
''', '''    Ok(sorted_names(&player_clients(data)?))
'''), ("src/clients.rs", '''    let names: Vec<String> = spectator_clients(data)?
        .iter()
        .map(|c| c.name.clone())
        .collect();
    Ok(unicode::sort(&names))
''', '''    spectator_clients(data).map(|spectators| sorted_names(&spectators))
'''), ("src/clients.rs", "pub fn team_names", '''fn sorted_names(clients: &[Client]) -> Vec<String> {
    let names: Vec<String> = clients.iter().map(|client| client.name.clone()).collect();
    unicode::sort(&names)
}

pub fn team_names'''))
r("client_let", ("src/client.rs", '''        Client {
            number: 0,
            name: value.name.clone().unwrap_or_default(),''', '''        let name = value.name.clone().unwrap_or_default();

        Self {
            number: 0,
            name,'''), ("src/client.rs", '''            is_spectator: value.spectator.is_some_and(|v| v != 0),
            is_bot: value.bot.is_some_and(|v| v != 0),''', '''            is_spectator: value.spectator.unwrap_or(0) != 0,
            is_bot: !matches!(value.bot, None | Some(0)),'''))
r("player_filter", ("src/player.rs", '''        let auth_username = match !player.login.is_empty() {
            true => Some(player.login.clone()),
            false => None,
        };
''', '''        let auth_username = Some(player.login.clone()).filter(|login| !login.is_empty());
'''))
r("player_if", ("src/player.rs", '''        let auth_username = match !player.login.is_empty() {
            true => Some(player.login.clone()),
            false => None,
        };
''', '''        let auth_username = if player.login.is_empty() {
            None
        } else {
            Some(player.login.clone())
        };
'''), ("src/player.rs", "is_bot: player.bot.is_some() || player.ping == BOT_PING", "is_bot: player.ping == BOT_PING || player.bot.is_some()"))
r("player_sort", ("src/player.rs", '''    |b, a| a.frags.cmp(&b.frags).then(b.name.cmp(&a.name))
''', '''    |a, b| {
        b.frags
            .cmp(&a.frags)
            .then_with(|| a.name.cmp(&b.name))
    }
'''))
r("player_sort_match", ("src/player.rs", '''    |b, a| a.frags.cmp(&b.frags).then(b.name.cmp(&a.name))
''', '''    |a, b| match b.frags.cmp(&a.frags) {
        Ordering::Equal => a.name.cmp(&b.name),
        order => order,
    }
'''))
r("player_sort_reverse", ("src/player.rs", '''    |b, a| a.frags.cmp(&b.frags).then(b.name.cmp(&a.name))
''', '''    by_frags_and_name
}

fn by_frags_and_name(a: &Player, b: &Player) -> Ordering {
    a.frags.cmp(&b.frags).reverse().then(a.name.cmp(&b.name))
'''))
r("players_match", ("src/players.rs", '''    if let Ok(stats) = ktxstats_v3(data) {
        players_from_ktxstats(&stats)
    } else {
        players_from_parsing(data)
    }
''', '''    match ktxstats_v3(data) {
        Ok(stats) => players_from_ktxstats(&stats),
        Err(_) => players_from_parsing(data),
    }
'''))
r("players_copied", ("src/players.rs", "frags: *frags.get(&c.name).unwrap_or(&0),", "frags: frags.get(&c.name).copied().unwrap_or(0),"),
  ("src/players.rs", "ping: *pings.get(&c.number).unwrap_or(&0),", "ping: pings.get(&c.number).copied().unwrap_or_default(),"),
  ("src/players.rs", "let mut players: Vec<Player> = pmap.values().cloned().collect();", "let mut players: Vec<Player> = pmap.into_values().collect();"))
r("players_no_map", ("src/players.rs", '''    let mut pmap: BTreeMap<u8, Player> = BTreeMap::new();

''', '''    let mut players: Vec<Player> = vec![];

'''), ("src/players.rs", "        pmap.insert(c.number, player);\n", "        players.push(player);\n"),
  ("src/players.rs", "    let mut players: Vec<Player> = pmap.values().cloned().collect();\n", ""),
  ("src/players.rs", "use std::collections::BTreeMap;\n\n", ""))
r("players_helper", ("src/players.rs", '''        let player = Player {
            name: c.name.clone(),
            team: c.team.clone(),
            color: c.color,
            frags: *frags.get(&c.name).unwrap_or(&0),
            ping: *pings.get(&c.number).unwrap_or(&0),
            auth_username: c.auth_username.clone(),
            auth_cc: c.auth_cc.clone(),
            is_bot: c.is_bot,
        };
        pmap.insert(c.number, player);
''', '''        let frags = frags.get(&c.name).copied().unwrap_or(0);
        let ping = pings.get(&c.number).copied().unwrap_or(0);
        pmap.insert(c.number, player_from_client(c, frags, ping));
'''), ("src/players.rs", "pub fn players_from_parsing", '''fn player_from_client(c: &crate::client::Client, frags: i32, ping: u32) -> Player {
    Player {
        frags,
        ping,
        name: c.name.clone(),
        team: c.team.clone(),
        color: c.color,
        is_bot: c.is_bot,
        auth_username: c.auth_username.clone(),
        auth_cc: c.auth_cc.clone(),
    }
}

pub fn players_from_parsing'''))
r("players_continue", ("src/players.rs", "    for c in clients.iter().filter(|c| !c.is_spectator) {\n", "    for c in &clients {\n        if c.is_spectator {\n            continue;\n        }\n\n"))
r("team_sums", ("src/team.rs", '''        for player in players.iter() {
            team.players.push(player.clone());
            team.frags = team.frags.saturating_add(player.frags);
            total_ping += u64::from(player.ping);
        }
''', '''        for player in players {
            total_ping += u64::from(player.ping);
            team.frags = team.frags.saturating_add(player.frags);
        }
        team.players = players.to_vec();
'''))
r("team_fold", ("src/team.rs", '''        let mut total_ping: u64 = 0;

        for player in players.iter() {
            team.players.push(player.clone());
            team.frags = team.frags.saturating_add(player.frags);
            total_ping += u64::from(player.ping);
        }
''', '''        team.players.extend(players.iter().cloned());
        team.frags = players
            .iter()
            .fold(0i32, |sum, player| sum.saturating_add(player.frags));
        let total_ping: u64 = players.iter().map(|player| u64::from(player.ping)).sum();
'''))
r("team_group", ("src/team.rs", '''        let teamplayers = tmap.entry(player.team.clone()).or_default();
        teamplayers.push(player.clone());
''', '''        tmap.entry(player.team.clone())
            .or_insert_with(Vec::new)
            .push(player.clone());
'''), ("src/team.rs", '''    let mut teams: Vec<Team> = vec![];

    for teamplayers in tmap.values() {
        teams.push(Team::from(teamplayers.as_slice()))
    }

    teams.sort_by(|a, b| a.name.to_lowercase().cmp(&b.name.to_lowercase()));

    teams
''', '''    let mut teams: Vec<Team> = tmap
        .values()
        .map(|teamplayers| Team::from(&teamplayers[..]))
        .collect();

    teams.sort_by_key(|team| team.name.to_lowercase());
    teams
'''))
r("team_first", ("src/team.rs", '''        if players.is_empty() {
            return Self::default();
        }
''', '''        let Some(first) = players.first() else {
            return Self::default();
        };
'''), ("src/team.rs", "name: players[0].team.to_string(),", "name: first.team.clone(),"),
  ("src/team.rs", "unwrap_or(players[0].color)", "unwrap_or(first.color)"))
r("team_color_iter", ("src/team.rs", '''        let player_colors: Vec<[u8; 2]> = team.players.iter().map(|p| p.color).collect();
''', '''        let player_colors = players.iter().map(|p| p.color).collect::<Vec<_>>();
'''), ("src/team.rs", '''    match colors.len() {
        0 => return None,
        1 | 2 => return Some(colors[0]),
        _ => {}
    };
''', '''    if colors.is_empty() {
        return None;
    }

    if colors.len() <= 2 {
        return Some(colors[0]);
    }
'''))
r("teams_let", ("src/teams.rs", "Ok(teams_from_players(&players(data)?))", "let players = players(data)?;\n    Ok(teams_from_players(&players))"))
r("timestamp_match", ("src/timestamp.rs", "timestamp_from_epoch(data).or_else(|_| matchdate(data))", "if let Ok(ts) = timestamp_from_epoch(data) {\n        return Ok(ts);\n    }\n\n    matchdate(data)"),
  ("src/timestamp.rs", '''    match Utc.timestamp_opt(epoch as i64, 0) {
        LocalResult::Single(ts) => Ok(ts),
        LocalResult::Ambiguous(earliest, _) => Ok(earliest),
        _ => Err(e!("Unable to parse timestamp from epoch")),
    }
''', '''    Utc.timestamp_opt(epoch as i64, 0)
        .earliest()
        .ok_or_else(|| e!("Unable to parse timestamp from epoch"))
'''), ("src/timestamp.rs", "use chrono::{DateTime, LocalResult, TimeZone, Utc};", "use chrono::{DateTime, TimeZone, Utc};"))
r("timezone_or_else", ("src/timezone.rs", '''    if let Some(offset) = utc_offset_by_abbr(value) {
        return Some(offset);
    } else if let Some(offset) = utc_offset_by_offset(value) {
        return Some(offset);
    }

    None
''', '''    utc_offset_by_abbr(value).or_else(|| utc_offset_by_offset(value))
'''), ("src/timezone.rs", '''    UTC_OFFSET_BY_ABBR.iter().find_map(|(abbr_, offset)| {
        if abbr_ == &abbr {
            Some(offset.to_string())
        } else {
            None
        }
    })
''', '''    UTC_OFFSET_BY_ABBR
        .iter()
        .find(|(known, _)| *known == abbr)
        .map(|(_, offset)| offset.to_string())
'''))
r("timezone_operator", ("src/timezone.rs", '''    let operator = match offset.chars().next() {
        Some(c) if ['+', '-'].contains(&c) => c,
        _ => {
            return None;
        }
    };
''', '''    let operator = offset.chars().next()?;

    if operator != '+' && operator != '-' {
        return None;
    }
'''))
r("timezone_filter", ("src/timezone.rs", '''    match offset.parse::<i32>() {
        Ok(number) if (0..=1200).contains(&number) => {
            Some(format!("{}{}:{}", operator, &offset[0..2], &offset[2..4]))
        }
        _ => None,
    }
''', '''    let number: i32 = offset.parse().ok()?;

    if !(0..=1200).contains(&number) {
        return None;
    }

    let (hours, minutes) = offset.split_at(2);
    Some(format!("{operator}{hours}:{minutes}"))
'''))
r("matchdate_let", ("src/matchdate.rs", '''    let Some(mut index_from) = data.find(MATCHDATE_NEEDLE) else {
        return Err(e!("Matchdate not found"));
    };
    index_from += MATCHDATE_NEEDLE.len();

    let Some(mut index_to) = data[index_from..].find_byte(b'\\n') else {
        return Err(e!("Invalid matchdate"));
    };
    index_to += index_from;

    let length = index_to - index_from;

    if !(MIN_LEN..=MAX_LEN).contains(&length) {
        return Err(e!("Invalid matchdate"));
    }

    Ok(String::from_utf8(data[index_from..index_to].to_vec())?)
''', '''    let needle_index = data
        .find(MATCHDATE_NEEDLE)
        .ok_or_else(|| e!("Matchdate not found"))?;
    let rest = &data[needle_index + MATCHDATE_NEEDLE.len()..];
    let length = rest.find_byte(b'\\n').ok_or_else(|| e!("Invalid matchdate"))?;

    if length < MIN_LEN || length > MAX_LEN {
        return Err(e!("Invalid matchdate"));
    }

    Ok(std::str::from_utf8(&rest[..length])?.to_string())
'''))
r("matchdate_format", ("src/matchdate.rs", '''    let Some(tz_offset) = timezone::utc_offset(tz_abbr) else {
        return Err(e!("Invalid timezone abbreviation"));
    };
    Ok(format!("{}{}", datetime, tz_offset))
''', '''    match timezone::utc_offset(tz_abbr) {
        Some(tz_offset) => Ok(format!("{datetime}{tz_offset}")),
        None => Err(e!("Invalid timezone abbreviation")),
    }
'''))
r("matchdate_concat", ("src/matchdate.rs", '''    Ok(format!("{}{}", datetime, tz_offset))
''', '''    let mut result = datetime.to_string();
    result.push_str(&tz_offset);
    Ok(result)
'''))
r("validate_early", ("src/validate.rs", '''    (data.len() >= MIN_SIZE)
        && has_end_of_demo_print(data)
        && serverinfo(data).is_ok()
        && has_clients(data)
''', '''    if data.len() < MIN_SIZE {
        return false;
    }

    if serverinfo(data).is_err() || !has_clients(data) {
        return false;
    }

    has_end_of_demo_print(data)
'''))
r("validate_match", ("src/validate.rs", "clientinfo(data).is_ok_and(|c| !c.is_empty())", "match clientinfo(data) {\n        Ok(clients) => clients.len() > 0,\n        Err(_) => false,\n    }"),
  ("src/validate.rs", "data.len() > NEEDLE_LEN && data[data.len() - NEEDLE_LEN..] == NEEDLE", "data.len() > NEEDLE_LEN && data.ends_with(&NEEDLE)"))
r("aborted_contains", ("src/aborted.rs", "data.find(MATCH_STOPPED_PRINT).is_some()", "data.contains_str(MATCH_STOPPED_PRINT)"))
r("aborted_windows", ("src/aborted.rs", "data.find(MATCH_STOPPED_PRINT).is_some()", "data.windows(MATCH_STOPPED_PRINT.len())\n        .any(|w| w == MATCH_STOPPED_PRINT)"), ("src/aborted.rs", "use bstr::ByteSlice;\n\n", ""))
r("paused_any", ("src/paused.rs", "data.rfind(IS_PAUSED_NEEDLE).is_some() || data.rfind(PAUSED_THE_GAME_NEEDLE).is_some()",
  "let needles: [&[u8]; 2] = [&IS_PAUSED_NEEDLE, &PAUSED_THE_GAME_NEEDLE];\n    needles.iter().any(|needle| data.find(needle).is_some())"))
r("paused_not", ("src/paused.rs", '''    if has_end_of_demo_print(data) {
        return false;
    }

''', ""), ("src/paused.rs", "    data.rfind(IS_PAUSED_NEEDLE).is_some() || data.rfind(PAUSED_THE_GAME_NEEDLE).is_some()\n", '''    let has_pause =
        data.find(PAUSED_THE_GAME_NEEDLE).is_some() || data.find(IS_PAUSED_NEEDLE).is_some();

    has_pause && !has_end_of_demo_print(data)
'''))
r("server_let", ("src/server.rs", '''        Server {
            hostname: stats.hostname.clone(),
            address: format!("{}:{}", stats.ip, stats.port),
            ip: stats.ip.clone(),
            port: stats.port,
        }
''', '''        let KtxstatsV3 {
            hostname, ip, port, ..
        } = stats;

        Self {
            address: format!("{ip}:{port}"),
            hostname: hostname.to_string(),
            ip: ip.to_owned(),
            port: *port,
        }
'''), ("src/server.rs", "Ok(Server::from(&ktxstats_v3(data)?))", "ktxstats_v3(data).map(|stats| Server::from(&stats))"))
r("filename_ok_or", ("src/filename.rs", '''    let Some(serverdemo) = serverinfo(data)?.serverdemo else {
        return Err(e!("Filename not found"));
    };
    Ok(serverdemo)
''', '''    serverinfo(data)?
        .serverdemo
        .ok_or_else(|| e!("Filename not found"))
'''))
r("ktxstats_loop", ("src/ktxstats.rs", '''    while let Ok(info) = block::Info::try_from(block_data(data, offset)) {
        if info.hidden_message != HiddenMessage::Demoinfo {
            break;
        }

        offset += TOTAL_HEADER_SIZE;
        let Some(body) = data.get(offset..offset + info.body_size) else {
            return Err(e!("ktxstats is truncated"));
        };
        content.extend_from_slice(body);

        if info.number == 0 {
            break;
        }

        offset += info.body_size;
    }
''', '''    loop {
        let info = match block::Info::try_from(block_data(data, offset)) {
            Ok(info) if info.hidden_message == HiddenMessage::Demoinfo => info,
            _ => break,
        };

        let body_from = offset + TOTAL_HEADER_SIZE;
        let body_to = body_from + info.body_size;
        let body = data
            .get(body_from..body_to)
            .ok_or_else(|| e!("ktxstats is truncated"))?;
        content.extend(body);
        offset = body_to;

        if info.number == 0 {
            break;
        }
    }
'''))
r("ktxstats_from_utf8", ("src/ktxstats.rs", "Ok(from_utf8(&content)?.to_string())", "Ok(String::from_utf8(content)?)"), ("src/ktxstats.rs", "use std::str::from_utf8;\n\n", ""))
r("block_let", ("src/qw/block.rs", '''        let Some(body_size) = (cur.read_u32()? as usize).checked_sub(numsize::SHORT) else {
            return Err(e!("Block is smaller than expected size"));
        };

        Ok(Info {
            body_size,
            total_size: HEADER_SIZE + body_size,
            hidden_message: HiddenMessage::from(&cur.read_u16()?),
            number: cur.read_u16()? as usize,
        })
''', '''        let size = cur.read_u32()? as usize;
        if size < numsize::SHORT {
            return Err(e!("Block is smaller than expected size"));
        }
        let body_size = size - numsize::SHORT;
        let hidden_message = HiddenMessage::from(&cur.read_u16()?);
        let number = usize::from(cur.read_u16()?);

        Ok(Info {
            number,
            hidden_message,
            body_size,
            total_size: body_size + HEADER_SIZE,
        })
'''))
r("frame_if", ("src/qw/frame.rs", '''        let multi_bytes = match target {
            Target::Multiple => numsize::LONG, // skip multi target bytes [0,0,0,0]
            _ => 0,
        };
        cur.set_position(cur.position() + multi_bytes as u64);
''', '''        if target == Target::Multiple {
            // skip multi target bytes [0,0,0,0]
            cur.set_position(cur.position() + numsize::LONG as u64);
        }
'''), ("src/qw/frame.rs", '''        if frame_data.len() < size {
            return Err(e!("Frame is smaller than expected size"));
        }

        Ok(Self {
            index,
            duration,
            target,
            command,
            size,
            header_size,
            header_range: index..index + header_size,
            body_size,
            body_range: index + header_size..index + size,
        })
''', '''        let body_index = index + header_size;
        let next_index = body_index + body_size;

        if next_index > data.len() {
            return Err(e!("Frame is smaller than expected size"));
        }

        Ok(Self {
            duration,
            target,
            command,
            index,
            size,
            header_size,
            header_range: index..body_index,
            body_size,
            body_range: body_index..next_index,
        })
'''))
r("frame_slice", ("src/qw/frame.rs", '''        let Some(frame_data) = data.get(index..) else {
            return Err(e!("Frame is smaller than expected size"));
        };
''', '''        if index > data.len() {
            return Err(e!("Frame is smaller than expected size"));
        }
        let frame_data = &data[index..];
'''), ("src/qw/frame.rs", '''        let (target, command) = {
            let byte = cur.read_byte()?;
            (Target::from(&byte), Command::from(&byte))
        };
''', '''        let type_byte = cur.read_byte()?;
        let target = Target::from(&type_byte);
        let command = Command::from(&type_byte);
'''))
r("frame_body_size", ("src/qw/frame.rs", '''        let body_size = match command {
            Command::Read => cur.read_u32()? as usize,
            Command::Set => 2 * numsize::LONG, // reads 2 longs (8 bytes)
            _ => 0,                            // should not happen
        };
''', '''        let body_size = if command == Command::Read {
            cur.read_u32()? as usize
        } else if command == Command::Set {
            8
        } else {
            0
        };
'''))
r("primitives_generic", ("src/qw/primitives.rs", '''        let mut buf = [0; 2];
        self.read_exact(&mut buf)
            .map_err(|_| err_other("failed to read short"))?;
        Ok(u16::from_le_bytes([buf[0], buf[1]]))
''', '''        let mut buf = [0u8; numsize::SHORT];
        match self.read_exact(&mut buf) {
            Ok(()) => Ok(u16::from_le_bytes(buf)),
            Err(_) => Err(err_other("failed to read short")),
        }
'''), ("src/qw/primitives.rs", '''        Ok(u32::from_le_bytes([buf[0], buf[1], buf[2], buf[3]]))
''', '''        Ok(u32::from_le_bytes(buf))
'''))
r("primitives_string", ("src/qw/primitives.rs", '''        let mut result = Vec::new();
        let mut buf = [0; 1];
        loop {
            self.read_exact(&mut buf)
                .map_err(|_| err_other("failed to read string"))?;
            if buf == [0] {
                break;
            }
            result.push(buf[0]);
        }
        Ok(result)
''', '''        let mut result = Vec::new();
        loop {
            match self.read_byte() {
                Ok(0) => return Ok(result),
                Ok(byte) => result.push(byte),
                Err(_) => return Err(err_other("failed to read string")),
            }
        }
'''))
r("primitives_bitops", ("src/qw/primitives.rs", "Ok(u16::from_le_bytes([buf[0], buf[1]]))", "Ok(buf[0] as u16 | (buf[1] as u16) << 8)"))
r("print_let", ("src/qw/message/print.rs", '''        Ok(Print {
            id: PrintId::from(&self.read_byte()?),
            content: self.read_bstring()?,
        })
''', '''        let id_byte = self.read_byte()?;
        let content = self.read_bstring()?;

        Ok(Print {
            content,
            id: PrintId::from(&id_byte),
        })
'''))
r("update_ping_let", ("src/qw/message/update_ping.rs", '''        let ping = UpdatePing {
            player_number: self.read_byte()?,
            ping: self.read_u16()?,
        };
        self.read_byte()?;
        Ok(ping)
''', '''        let player_number = self.read_byte()?;
        let ping = self.read_u16()?;
        let _ = self.read_byte()?;

        Ok(UpdatePing {
            player_number,
            ping,
        })
'''))
r("update_frags_and_then", ("src/qw/message/update_frags.rs", '''        Ok(UpdateFrags {
            player_number: self.read_byte()?,
            frags: self.read_u16()?,
        })
''', '''        let player_number = self.read_byte()?;
        self.read_u16().map(|frags| UpdateFrags {
            player_number,
            frags,
        })
'''))
r("prot_mask", ("src/qw/prot.rs", "        match value & 7 {\n            3 => Target::Multiple,", "        match *value % 8 {\n            3 => Target::Multiple,"),
  ("src/qw/prot.rs", "            1 | 3..=6 => Command::Read,", "            1 | 3 | 4 | 5 | 6 => Command::Read,"))
r("serverinfo_question", ("src/serverinfo.rs", "    serverinfo_string(data).map(|str| Settings::from(str.as_str()))\n", "    let info = serverinfo_string(data)?;\n    Ok(Settings::from(info.as_str()))\n"))

r("team_ping_sum", ("src/team.rs", """        let mut total_ping: u64 = 0;

""", ""), ("src/team.rs", """            total_ping += u64::from(player.ping);
""", ""), ("src/team.rs", """        let player_count = team.players.len() as u64;
""", """        let total_ping: u64 = players.iter().map(|p| u64::from(p.ping)).sum();
        let player_count = players.len() as u64;
"""))
r("team_ping_double", ("src/team.rs", "((total_ping + player_count / 2) / player_count) as u32", "((2 * total_ping + player_count) / (2 * player_count)) as u32"))
r("suicide_match", ("src/qw/fragevent.rs", """        } else if let Some(player) = value.strip_suffix(X_SUICIDE) {
            return Ok(FragEvent::Suicide {
                player: player.to_string(),
            });
""", """        } else if value.ends_with(X_SUICIDE) {
            let name_len = value.len() - X_SUICIDE.len();
            return Ok(FragEvent::Suicide {
                player: value[..name_len].to_string(),
            });
"""))
r("team_names_set", ("src/clients.rs", """    names.sort();
    names.dedup();
    Ok(unicode::sort(&names))
""", """    names.sort_unstable();
    names.dedup();
    let sorted = unicode::sort(&names);
    Ok(sorted)
"""))
r("duration_secs", ("src/duration.rs", "Duration::from_millis(total_ms)", "Duration::new(total_ms / 1000, (total_ms % 1000) as u32 * 1_000_000)"))
r("prints_dedup_by", ("src/prints.rs", "    prints.dedup();", "    prints.dedup_by(|a, b| a.id == b.id && a.content == b.content);"))
r("prints_retain", ("src/prints.rs", """                    if !print.content.is_empty() {
                        prints.push(print);
                    }
""", """                    prints.push(print);
"""), ("src/prints.rs", "    prints.dedup();", "    prints.retain(|p| !p.content.is_empty());\n    prints.dedup();"))

# ---- larger restructurings
PRINTS_LOOP = '''    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
        if info.body_size > 0 {
            let mut body = Cursor::new(&data[info.body_range]);

            while body
                .read_message_type()
                .is_ok_and(|t| t == MessageType::Print)
            {
                if let Ok(print) = body.read_print() {
                    if !print.content.is_empty() {
                        prints.push(print);
                    }
                }
            }
        }

        index += info.size;
    }
'''
r("prints_range_empty", ("src/prints.rs", "if info.body_size > 0 {", "if !info.body_range.is_empty() {"))
r("prints_no_guard", ("src/prints.rs", PRINTS_LOOP, '''    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
        let mut body = Cursor::new(&data[info.body_range]);

        while body
            .read_message_type()
            .is_ok_and(|t| t == MessageType::Print)
        {
            if let Ok(print) = body.read_print() {
                if !print.content.is_empty() {
                    prints.push(print);
                }
            }
        }

        index += info.size;
    }
'''))
r("prints_bodies_first", ("src/prints.rs", PRINTS_LOOP, '''    let mut bodies: Vec<&[u8]> = Vec::new();

    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
        if info.body_size > 0 {
            bodies.push(&data[info.body_range]);
        }
        index += info.size;
    }

    for bytes in bodies {
        let mut body = Cursor::new(bytes);
        while body
            .read_message_type()
            .is_ok_and(|t| t == MessageType::Print)
        {
            if let Ok(print) = body.read_print() {
                if !print.content.is_empty() {
                    prints.push(print);
                }
            }
        }
    }
'''))
r("prints_from_fn", ("src/prints.rs", PRINTS_LOOP, '''    let infos = std::iter::from_fn(|| {
        let info = frame::Info::from_data_and_index(data, index).ok()?;
        index += info.size;
        Some(info)
    });

    for info in infos.filter(|i| i.body_size > 0) {
        let mut body = Cursor::new(&data[info.body_range]);

        while body
            .read_message_type()
            .is_ok_and(|t| t == MessageType::Print)
        {
            if let Ok(print) = body.read_print() {
                if !print.content.is_empty() {
                    prints.push(print);
                }
            }
        }
    }
'''))
r("prints_loop_match", ("src/prints.rs", PRINTS_LOOP, '''    loop {
        let info = match frame::Info::from_data_and_index(data, index) {
            Ok(info) => info,
            Err(_) => break,
        };
        index += info.size;
        if info.body_size == 0 {
            continue;
        }

        let mut body = Cursor::new(&data[info.body_range]);
        loop {
            match body.read_message_type() {
                Ok(MessageType::Print) => {}
                _ => break,
            }
            match body.read_print() {
                Ok(print) if !print.content.is_empty() => prints.push(print),
                _ => continue,
            }
        }
    }
'''))
r("prints_recursive_helper", ("src/prints.rs", PRINTS_LOOP, '''    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
        if info.body_size > 0 {
            prints.extend(prints_in_body(&data[info.body_range]));
        }

        index += info.size;
    }
'''), ("src/prints.rs", "#[cfg(test)]", '''fn prints_in_body(bytes: &[u8]) -> Vec<Print> {
    let mut found = vec![];
    let mut body = Cursor::new(bytes);

    while let Ok(MessageType::Print) = body.read_message_type() {
        let Ok(print) = body.read_print() else {
            continue;
        };
        if print.content.is_empty() {
            continue;
        }
        found.push(print);
    }

    found
}

#[cfg(test)]'''))
r("frags_range_empty", ("src/frags.rs", "if frame_info.body_size == 0 {", "if frame_info.body_range.is_empty() {"))
r("frags_body_block", ("src/frags.rs", '''        if frame_info.body_size == 0 {
            index += frame_info.size;
            continue;
        }

        let mut body = Cursor::new(&data[frame_info.clone().body_range]);

        if body
            .read_message_type()
            .is_ok_and(|t| t == MessageType::Print)
        {
            if let Ok(p) = body.read_print() {
                if !p.content.is_empty() && PrintId::Medium == p.id {
                    print_frames.push((p, frame_info.clone()))
                }
            }
        }

        index += frame_info.size;
''', '''        index += frame_info.size;

        if frame_info.body_size > 0 {
            let mut body = Cursor::new(&data[frame_info.body_range.clone()]);
            let Ok(MessageType::Print) = body.read_message_type() else {
                continue;
            };

            match body.read_print() {
                Ok(p) if p.id == PrintId::Medium && !p.content.is_empty() => {
                    print_frames.push((p, frame_info));
                }
                _ => {}
            }
        }
'''))
r("frags_delta", ("src/frags.rs", '''        match FragEvent::try_from(content_u.trim_end()) {
            Ok(event) => match event {
                FragEvent::Frag { killer, .. } => {
                    let killer = frags.entry(killer).or_insert(0);
                    *killer += 1;
                }
                FragEvent::Death { player } => {
                    let player = frags.entry(player).or_insert(0);
                    *player -= 1;
                }
                FragEvent::Suicide { player } => {
                    let player = frags.entry(player).or_insert(0);
                    *player -= 2;
                }
                FragEvent::SuicideByWeapon { player } => {
                    let player = frags.entry(player).or_insert(0);
                    *player -= 1;
                }
                FragEvent::Teamkill { killer } => {
                    let killer = frags.entry(killer).or_insert(0);
                    *killer -= 1;
                }
                FragEvent::TeamkillByUnknown { victim } => {
                    if let Ok(name) = find_team_killer(data, frame_info.index, &victim) {
                        let killer = frags.entry(name).or_insert(0);
                        *killer -= 1;
                    }
                }
            },
            Err(_e) => {
                // println!("UNKNOWN {:?}", e);
            }
        }
''', '''        let Ok(event) = FragEvent::try_from(content_u.trim_end()) else {
            continue;
        };

        let (name, delta) = match event {
            FragEvent::Frag { killer, .. } => (killer, 1),
            FragEvent::Suicide { player } => (player, -2),
            FragEvent::Death { player } | FragEvent::SuicideByWeapon { player } => (player, -1),
            FragEvent::Teamkill { killer } => (killer, -1),
            FragEvent::TeamkillByUnknown { victim } => {
                match find_team_killer(data, frame_info.index, &victim) {
                    Ok(name) => (name, -1),
                    Err(_) => continue,
                }
            }
        };

        *frags.entry(name).or_default() += delta;
'''))
r("frags_single_pass", ("src/frags.rs", '''    let mut print_frames: Vec<(Print, frame::Info)> = vec![];

''', '''    let mut frags: HashMap<String, i32> = HashMap::new();

'''), ("src/frags.rs", '''                if !p.content.is_empty() && PrintId::Medium == p.id {
                    print_frames.push((p, frame_info.clone()))
                }
''', '''                if !p.content.is_empty() && PrintId::Medium == p.id {
                    count_print(data, &mut frags, &p, &frame_info);
                }
'''), ("src/frags.rs", '''    let mut frags: HashMap<String, i32> = HashMap::new();

    for (print, frame_info) in print_frames {
        let content_u''', '''    frags
}

fn count_print(
    data: &[u8],
    frags: &mut HashMap<String, i32>,
    print: &Print,
    frame_info: &frame::Info,
) {
        let content_u'''), ("src/frags.rs", '''                // println!("UNKNOWN {:?}", e);
            }
        }
    }

    frags
}
''', '''                // println!("UNKNOWN {:?}", e);
            }
        }
}
'''))
KILLER_LOOP = '''    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
        if frame_count >= MAX_FRAME_COUNT {
            break;
        } else if info.body_size == 0 {
            index += info.size;
            continue;
        }

        let mut body = Cursor::new(&data[info.body_range.clone()]);

        if frame_count == 1 {
            body.read_print().ok();
        }

        if body
            .read_message_type()
            .is_ok_and(|t| t == MessageType::UpdateFrags)
        {
            if let Ok(u) = body.read_update_frags() {
                frag_update_player_numbers.push(u.player_number);
            }
        }

        index += info.size;
        frame_count += 1;
    }
'''
r("frags_killer_while_count", ("src/frags.rs", KILLER_LOOP, '''    while frame_count < MAX_FRAME_COUNT {
        let Ok(info) = frame::Info::from_data_and_index(data, index) else {
            break;
        };
        index += info.size;

        if info.body_range.is_empty() {
            continue;
        }

        let mut body = Cursor::new(&data[info.body_range]);
        let is_first = frame_count == 1;
        frame_count += 1;

        if is_first {
            let _ = body.read_print();
        }

        let Ok(MessageType::UpdateFrags) = body.read_message_type() else {
            continue;
        };
        if let Ok(update) = body.read_update_frags() {
            frag_update_player_numbers.push(update.player_number);
        }
    }
'''))
r("frags_killer_clients_first", ("src/frags.rs", '''    if frag_update_player_numbers.is_empty() {
        return Err(e!("Unable to find nearby frag updates"));
    }

    let clients = clients::clients(data)?;
    let Some(victim_client)''', '''    let clients = clients::clients(data)?;

    if frag_update_player_numbers.is_empty() {
        return Err(e!("Unable to find nearby frag updates"));
    }

    let Some(victim_client)'''))
r("frags_killer_nested_for", ("src/frags.rs", '''    let killer = frag_update_player_numbers
        .iter()
        .filter_map(|player_number| clients.iter().find(|c| c.number == *player_number))
        .find(|c| c.team == victim_client.team && c.name != victim_client.name)
        .map(|c| c.name.clone());

    match killer {
        Some(killer) => Ok(killer),
        None => Err(e!("Unable to find team killer")),
    }
''', '''    for player_number in frag_update_player_numbers.iter() {
        let Some(candidate) = clients.iter().find(|c| c.number == *player_number) else {
            continue;
        };
        if candidate.team == victim_client.team && candidate.name != *victim_name {
            return Ok(candidate.name.clone());
        }
    }

    Err(e!("Unable to find team killer"))
'''))
r("frags_killer_get", ("src/frags.rs", ".filter_map(|player_number| clients.iter().find(|c| c.number == *player_number))", ".filter_map(|player_number| clients.get(usize::from(*player_number)))"))
FLAG_INNER = '''        let mut body = Cursor::new(&data[frame_info.clone().body_range]);
        let mut current_print: Vec<u8> = vec![];

        while let Ok(mt) = body.read_message_type() {
            if mt == MessageType::Print {
                if let Ok(p) = body.read_print() {
                    if p.id == PrintId::High && !p.content.is_empty() {
                        let is_continuation =
                            !current_print.ends_with(b"\\n") && is_message_suffix(&p.content);

                        if !current_print.is_empty() && !is_continuation {
                            prints.push(current_print);
                            current_print = vec![];
                        }

                        current_print.extend_from_slice(&p.content);
                    }
                }
            }
        }

        if !current_print.is_empty() {
            prints.push(current_print);
        }

        index += frame_info.size;
'''
r("flags_frame_helper", ("src/flags.rs", FLAG_INNER, '''        prints.extend(frame_prints(&data[frame_info.body_range.clone()]));
        index += frame_info.size;
'''), ("src/flags.rs", "fn is_message_suffix", '''fn frame_prints(bytes: &[u8]) -> Vec<Vec<u8>> {
    let mut result = vec![];
    let mut body = Cursor::new(bytes);
    let mut current: Vec<u8> = vec![];

    while let Ok(mt) = body.read_message_type() {
        if mt != MessageType::Print {
            continue;
        }
        let Ok(p) = body.read_print() else {
            continue;
        };
        if p.id != PrintId::High || p.content.is_empty() {
            continue;
        }

        let is_continuation = !current.ends_with(b"\\n") && is_message_suffix(&p.content);
        if !current.is_empty() && !is_continuation {
            result.push(std::mem::take(&mut current));
        }
        current.extend_from_slice(&p.content);
    }

    if !current.is_empty() {
        result.push(current);
    }
    result
}

fn is_message_suffix'''))
r("flags_collect_then_join", ("src/flags.rs", FLAG_INNER, '''        let mut body = Cursor::new(&data[frame_info.clone().body_range]);
        let mut parts: Vec<_> = vec![];

        while let Ok(mt) = body.read_message_type() {
            if mt != MessageType::Print {
                continue;
            }
            if let Ok(p) = body.read_print() {
                if p.id == PrintId::High && !p.content.is_empty() {
                    parts.push(p.content);
                }
            }
        }

        let mut current_print: Vec<u8> = vec![];
        for part in parts {
            let is_continuation = !current_print.ends_with(b"\\n") && is_message_suffix(&part);

            if !current_print.is_empty() && !is_continuation {
                prints.push(current_print);
                current_print = vec![];
            }
            current_print.extend_from_slice(&part);
        }

        if !current_print.is_empty() {
            prints.push(current_print);
        }

        index += frame_info.size;
'''))
r("flags_skip_guard", ("src/flags.rs", '''        if frame_info.body_size == 0 || data[frame_info.clone().body_range].find(b"flag").is_none()
        {
            index += frame_info.size;
            continue;
        }
''', '''        let has_flag = data[frame_info.body_range.clone()].find(b"flag").is_some();
        if !has_flag {
            index += frame_info.size;
            continue;
        }
'''))
r("flags_field_match", ("src/flags.rs", '''            Ok(event) => match event {
                FlagEvent::CapturedFlag { player } => {
                    let pfe = player_flag_events.entry(player).or_default();
                    pfe.captures += 1;
                }
''', '''            Ok(event) => match event {
                FlagEvent::CapturedFlag { player } => {
                    player_flag_events
                        .entry(player)
                        .and_modify(|e| e.captures += 1)
                        .or_insert_with(|| PlayerFlagEvents {
                            captures: 1,
                            ..Default::default()
                        });
                }
'''))
r("ping_sum_and_count", ("src/ping.rs", "let mut total_pings: HashMap<u8, Vec<u16>> = HashMap::new();", "let mut total_pings: HashMap<u8, (u64, u64)> = HashMap::new();"), ("src/ping.rs", '''                    pings.push(u.ping);
''', '''                    pings.0 += u64::from(u.ping);
                    pings.1 += 1;
'''), ("src/ping.rs", '''    for (pnum, pings) in total_pings.iter() {
        let pings_sum = pings.iter().map(|p| u64::from(*p)).sum::<u64>();
        let avg_ping = (pings_sum / pings.len() as u64) as u32;
        average_ping.insert(*pnum, avg_ping);
    }
''', '''    for (pnum, (sum, count)) in total_pings.iter() {
        average_ping.insert(*pnum, (sum / count) as u32);
    }
'''))
r("ping_for_sum", ("src/ping.rs", '''        let pings_sum = pings.iter().map(|p| u64::from(*p)).sum::<u64>();
''', '''        let mut pings_sum: u64 = 0;
        for ping in pings {
            pings_sum += u64::from(*ping);
        }
'''))
r("ping_while_samples", ("src/ping.rs", '''    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
''', '''    while sample_count < max_samples {
        let Ok(info) = frame::Info::from_data_and_index(data, index) else {
            break;
        };
'''), ("src/ping.rs", '''        if sample_count >= max_samples {
            break;
        }

''', ""))
r("ping_break_on_sample", ("src/ping.rs", '''            if did_ping_update {
                sample_count += 1;
            }
        }

        if sample_count >= max_samples {
            break;
        }
''', '''            if did_ping_update {
                sample_count += 1;
                if sample_count == max_samples {
                    break;
                }
            }
        }
'''))
r("ping_updates_helper", ("src/ping.rs", '''            let mut body = Cursor::new(&data[info.body_range.clone()]);
            let mut did_ping_update = false;

            while body
                .read_message_type()
                .is_ok_and(|t| t == MessageType::UpdatePing)
            {
                if let Ok(u) = body.read_update_ping() {
                    let pings = total_pings.entry(u.player_number).or_default();
                    pings.push(u.ping);

                    body.set_position(body.position() + 2); // skip UpdatePl
                    did_ping_update = true;
                }
            }

            if did_ping_update {
                sample_count += 1;
            }
''', '''            let updates = ping_updates(&data[info.body_range.clone()]);
            for (player_number, ping) in &updates {
                total_pings.entry(*player_number).or_default().push(*ping);
            }
            if !updates.is_empty() {
                sample_count += 1;
            }
'''), ("src/ping.rs", "#[cfg(test)]", '''fn ping_updates(bytes: &[u8]) -> Vec<(u8, u16)> {
    let mut updates = vec![];
    let mut body = Cursor::new(bytes);
    while let Ok(MessageType::UpdatePing) = body.read_message_type() {
        if let Ok(u) = body.read_update_ping() {
            updates.push((u.player_number, u.ping));
            body.set_position(body.position() + 2);
        }
    }
    updates
}

#[cfg(test)]'''))
DUR = '''    while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
        if index >= target_offset {
            break;
        }

        total_ms += u64::from(frame_info.duration);
        index += frame_info.size;
    }
'''
r("duration_while_index", ("src/duration.rs", DUR, '''    while index < target_offset {
        let Ok(frame_info) = frame::Info::from_data_and_index(data, index) else {
            break;
        };
        index = frame_info.body_range.end;
        total_ms += u64::from(frame_info.duration);
    }
'''))
r("duration_successors", ("src/duration.rs", DUR, '''    let first = frame::Info::from_data_and_index(data, index).ok();
    let frames = std::iter::successors(first, |f| {
        frame::Info::from_data_and_index(data, f.index + f.size).ok()
    });
    for frame_info in frames.take_while(|f| f.index < target_offset) {
        total_ms += u64::from(frame_info.duration);
    }
'''), ("src/duration.rs", "let mut index = 0;\n    let mut total_ms", "let index = 0;\n    let mut total_ms"))
r("duration_iterator", ("src/duration.rs", '''    let mut index = 0;
    let mut total_ms: u64 = 0;

''' + DUR, '''    let frames = Frames { data, index: 0 };
    let total_ms: u64 = frames
        .take_while(|f| f.index < target_offset)
        .map(|f| u64::from(f.duration))
        .sum();
'''), ("src/duration.rs", "fn duration_until_offset", '''struct Frames<'a> {
    data: &'a [u8],
    index: usize,
}

impl Iterator for Frames<'_> {
    type Item = frame::Info;

    fn next(&mut self) -> Option<Self::Item> {
        let info = frame::Info::from_data_and_index(self.data, self.index).ok()?;
        self.index += info.size;
        Some(info)
    }
}

fn duration_until_offset'''))
r("duration_add_durations", ("src/duration.rs", "let mut total_ms: u64 = 0;", "let mut total = Duration::ZERO;"), ("src/duration.rs", "total_ms += u64::from(frame_info.duration);", "total += Duration::from_millis(u64::from(frame_info.duration));"), ("src/duration.rs", "    Duration::from_millis(total_ms)\n", "    total\n"))
r("clientinfo_while_max", ("src/clientinfo.rs", '''        result.push(quake_text::bytestr::to_unicode(&data[from..to]));
        offset = to;

        if offset >= max_offset {
            break;
        }
    }
''', '''        result.push(quake_text::bytestr::to_unicode(&data[from..to]));

        if to >= max_offset {
            break;
        }
        offset = to;
    }
'''))
r("clientinfo_next_helper", ("src/clientinfo.rs", '''        let Some(from) = data[..name_offset].rfind_byte(0).map(|o| o + 1) else {
            break;
        };

        let Some(to) = data[from..].find_byte(0).map(|o| from + o) else {
            break;
        };

        if !(MIN_LEN..=MAX_LEN).contains(&(to - from)) {
            break;
        }

        result.push(quake_text::bytestr::to_unicode(&data[from..to]));
''', '''        let Some((from, to)) = bounds(data, name_offset) else {
            break;
        };
        let text = &data[from..to];

        if text.len() < MIN_LEN || text.len() > MAX_LEN {
            break;
        }

        result.push(quake_text::bytestr::to_unicode(text));
'''), ("src/clientinfo.rs", "#[cfg(test)]", '''fn bounds(data: &[u8], position: usize) -> Option<(usize, usize)> {
    let from = data[..position].rfind_byte(0)? + 1;
    let to = from + data[from..].find_byte(0)?;
    Some((from, to))
}

#[cfg(test)]'''))
r("clients_for_push", ("src/clients.rs", '''    let clients: Vec<Client> = (0..=u8::MAX)
        .zip(clientinfo::clientinfo(data)?.iter())
        .map(|(number, info)| {
            let mut client = Client::from(info);
            client.number = number;
            client
        })
        .collect();
    Ok(clients)
''', '''    let mut clients: Vec<Client> = vec![];
    for (number, info) in (0..=u8::MAX).zip(clientinfo::clientinfo(data)?.iter()) {
        clients.push(Client {
            number,
            ..Client::from(info)
        });
    }
    Ok(clients)
'''))
r("players_into_values", ("src/players.rs", "let mut players: Vec<Player> = pmap.values().cloned().collect();", "let mut players: Vec<Player> = pmap.into_values().collect();"))
r("players_vec_number_order", ("src/players.rs", "let mut pmap: BTreeMap<u8, Player> = BTreeMap::new();", "let mut players: Vec<Player> = vec![];"), ("src/players.rs", "        pmap.insert(c.number, player);\n", "        players.push(player);\n"), ("src/players.rs", "    let mut players: Vec<Player> = pmap.values().cloned().collect();\n", ""), ("src/players.rs", "use std::collections::BTreeMap;\n\n", ""))
r("players_get_copied_match", ("src/players.rs", "frags: *frags.get(&c.name).unwrap_or(&0),", "frags: match frags.get(&c.name) {\n                Some(n) => *n,\n                None => 0,\n            },"))
r("teams_sort_key", ("src/team.rs", "teams.sort_by(|a, b| a.name.to_lowercase().cmp(&b.name.to_lowercase()));", "teams.sort_by_key(|t| t.name.to_lowercase());"))
r("teams_collect", ("src/team.rs", '''    let mut teams: Vec<Team> = vec![];

    for teamplayers in tmap.values() {
        teams.push(Team::from(teamplayers.as_slice()))
    }
''', '''    let mut teams: Vec<Team> = tmap.into_values().map(|p| Team::from(p.as_slice())).collect();
'''))
r("team_color_count_filter", ("src/team.rs", '''    let mut color_count: HashMap<[u8; 2], usize> = HashMap::new();
    for color in colors.iter() {
        let count = color_count.entry(*color).or_insert(0);
        *count += 1;
    }

''', ""), ("src/team.rs", "let count = color_count.get(color).copied().unwrap_or_default();", "let count = colors.iter().filter(|c| *c == color).count();"), ("src/team.rs", "use std::collections::{BTreeMap, HashMap};", "use std::collections::BTreeMap;"))
r("team_struct_end", ("src/team.rs", '''        let mut team = Team {
            name: players[0].team.to_string(),
            players: vec![],
            frags: 0,
            ping: 0,
            color: [0, 0],
        };

        let mut total_ping: u64 = 0;

        for player in players.iter() {
            team.players.push(player.clone());
            team.frags = team.frags.saturating_add(player.frags);
            total_ping += u64::from(player.ping);
        }

        let player_count = team.players.len() as u64;
        team.ping = ((total_ping + player_count / 2) / player_count) as u32;
        let player_colors: Vec<[u8; 2]> = team.players.iter().map(|p| p.color).collect();
        team.color = majority_color(&player_colors).unwrap_or(players[0].color);

        team
''', '''        let first = &players[0];
        let frags = players
            .iter()
            .fold(0i32, |sum, p| sum.saturating_add(p.frags));
        let total_ping: u64 = players.iter().map(|p| u64::from(p.ping)).sum();
        let count = players.len() as u64;
        let colors: Vec<[u8; 2]> = players.iter().map(|p| p.color).collect();

        Team {
            name: first.team.clone(),
            color: majority_color(&colors).unwrap_or(first.color),
            frags,
            ping: ((total_ping + count / 2) / count) as u32,
            players: players.to_vec(),
        }
'''))
r("ktxstats_loop_match", ("src/ktxstats.rs", '''    while let Ok(info) = block::Info::try_from(block_data(data, offset)) {
        if info.hidden_message != HiddenMessage::Demoinfo {
            break;
        }

        offset += TOTAL_HEADER_SIZE;
''', '''    loop {
        let info = match block::Info::try_from(block_data(data, offset)) {
            Ok(info) if info.hidden_message == HiddenMessage::Demoinfo => info,
            _ => break,
        };

        offset += TOTAL_HEADER_SIZE;
'''))
r("fragevent_chain", ("src/qw/fragevent.rs", '''        for p in [X_FRAG_Y.to_vec(), Y_FRAG_X.to_vec()].concat() {
            if let Some((x, y)) = pattern_match(value, p) {
                let (killer, victim) = match X_FRAG_Y.contains(&p) {
                    true => (x, y),
                    false => (y, x),
                };
                return Ok(FragEvent::Frag { killer, victim });
            }
        }
''', '''        for p in X_FRAG_Y {
            if let Some((killer, victim)) = pattern_match(value, p) {
                return Ok(FragEvent::Frag { killer, victim });
            }
        }
        for p in Y_FRAG_X {
            if let Some((victim, killer)) = pattern_match(value, p) {
                return Ok(FragEvent::Frag { killer, victim });
            }
        }
'''))
r("fragevent_find_prefix", ("src/qw/fragevent.rs", '''            let (x, rest) = value.split_once(prefix)?;
            let (y, _) = rest.split_once(suffix)?;
            (x, y)
''', '''            let from = value.find(prefix)?;
            let rest = &value[from + prefix.len()..];
            let to = rest.find(suffix)?;
            (&value[..from], &rest[..to])
'''))
r("frags_remove_insert", ("src/frags.rs", '''                FragEvent::Death { player } => {
                    let player = frags.entry(player).or_insert(0);
                    *player -= 1;''', '''                FragEvent::Death { player } => {
                    let n = frags.remove(&player).unwrap_or(0);
                    frags.insert(player, n - 1);'''))
r("bytesextra_match", ("src/bytesextra.rs", '''    let index_from = data.find(a)? + a.len();
    let index_to = index_from + data[index_from..].find(b)?;

    if index_to > index_from {
        Some((index_from, index_to))
    } else {
        None
    }
''', '''    let start = data.find(a)?;
    let (_, rest) = data.split_at(start + a.len());
    match rest.find(b) {
        Some(0) | None => None,
        Some(len) => {
            let index_from = start + a.len();
            Some((index_from, index_from + len))
        }
    }
'''))
r("bytesextra_filter", ("src/bytesextra.rs", '''    let index_to = index_from + data[index_from..].find(b)?;

    if index_to > index_from {
        Some((index_from, index_to))
    } else {
        None
    }
''', '''    data[index_from..]
        .find(b)
        .filter(|len| *len > 0)
        .map(|len| (index_from, index_from + len))
'''))
r("serverinfo_helper", ("src/serverinfo.rs", '''    const MAX_OFFSET: usize = 256;
    const MAX_SIZE: usize = 1024;
    let Some((from, to)) = bytesextra::offsets_between(
        &data[..data.len().min(MAX_OFFSET + MAX_SIZE)],
        br#"fullserverinfo ""#,
        &[b'"'],
    ) else {
        return Err(e!("Serverinfo not found"));
    };
    Ok(quake_text::bytestr::to_utf8(&data[from..to]))
''', '''    serverinfo_bytes(data)
        .map(quake_text::bytestr::to_utf8)
        .ok_or_else(|| e!("Serverinfo not found"))
}

fn serverinfo_bytes(data: &[u8]) -> Option<&[u8]> {
    const MAX_OFFSET: usize = 256;
    const MAX_SIZE: usize = 1024;
    let head = match data.len() > MAX_OFFSET + MAX_SIZE {
        true => &data[..MAX_OFFSET + MAX_SIZE],
        false => data,
    };
    let (from, to) = bytesextra::offsets_between(head, br#"fullserverinfo ""#, b"\\"")?;
    Some(&head[from..to])
'''))
r("serverinfo_get", ("src/serverinfo.rs", "&data[..data.len().min(MAX_OFFSET + MAX_SIZE)],", "data.get(..MAX_OFFSET + MAX_SIZE).unwrap_or(data),"))
r("matchdate_split", ("src/matchdate.rs", '''    let Some(mut index_from) = data.find(MATCHDATE_NEEDLE) else {
        return Err(e!("Matchdate not found"));
    };
    index_from += MATCHDATE_NEEDLE.len();

    let Some(mut index_to) = data[index_from..].find_byte(b'\\n') else {
        return Err(e!("Invalid matchdate"));
    };
    index_to += index_from;

    let length = index_to - index_from;

    if !(MIN_LEN..=MAX_LEN).contains(&length) {
        return Err(e!("Invalid matchdate"));
    }

    Ok(String::from_utf8(data[index_from..index_to].to_vec())?)
''', '''    let start = data
        .find(MATCHDATE_NEEDLE)
        .ok_or_else(|| e!("Matchdate not found"))?;
    let text = &data[start + MATCHDATE_NEEDLE.len()..];
    let line = match text.find_byte(b'\\n') {
        Some(length) if length >= MIN_LEN && length <= MAX_LEN => &text[..length],
        _ => return Err(e!("Invalid matchdate")),
    };

    Ok(std::str::from_utf8(line)?.to_owned())
'''))
r("matchdate_zone_first", ("src/matchdate.rs", '''    let (Some(datetime), Some(tz_abbr)) = (
        timestamp.get(..DATETIME_LEN),
        timestamp.get(DATETIME_LEN + 1..),
    ) else {
        return Err(e!("Invalid matchdate"));
    };
    let Some(tz_offset) = timezone::utc_offset(tz_abbr) else {
        return Err(e!("Invalid timezone abbreviation"));
    };
    Ok(format!("{}{}", datetime, tz_offset))
''', '''    let invalid = || e!("Invalid matchdate");
    let tz_abbr = timestamp.get(DATETIME_LEN + 1..).ok_or_else(invalid)?;
    let datetime = timestamp.get(..DATETIME_LEN).ok_or_else(invalid)?;
    match timezone::utc_offset(tz_abbr) {
        Some(tz_offset) => Ok(datetime.to_string() + &tz_offset),
        None => Err(e!("Invalid timezone abbreviation")),
    }
'''))
r("clientinfo_for_range", ("src/clientinfo.rs", '''    let info: Vec<Clientinfo> = clientinfo_strings(data)?
        .iter()
        .map(|s| Clientinfo::from(s.as_str()))
        .collect();
    Ok(info)
''', '''    let strings = clientinfo_strings(data)?;
    let mut info = Vec::with_capacity(strings.len());
    for i in 0..strings.len() {
        info.push(Clientinfo::from(strings[i].as_str()));
    }
    Ok(info)
'''))
r("clientinfo_slices", ("src/clientinfo.rs", '''        let Some(from) = data[..name_offset].rfind_byte(0).map(|o| o + 1) else {
            break;
        };

        let Some(to) = data[from..].find_byte(0).map(|o| from + o) else {
            break;
        };

        if !(MIN_LEN..=MAX_LEN).contains(&(to - from)) {
            break;
        }

        result.push(quake_text::bytestr::to_unicode(&data[from..to]));
        offset = to;
''', '''        let Some(before) = data[..name_offset].rfind_byte(0) else {
            break;
        };
        let tail = &data[before + 1..];

        let info = match tail.find_byte(0) {
            Some(length) if length >= MIN_LEN && length <= MAX_LEN => &tail[..length],
            _ => break,
        };

        result.push(quake_text::bytestr::to_unicode(info));
        offset = before + 1 + info.len();
'''))
r("clientinfo_end_helper", ("src/clientinfo.rs", '''        .find(br#"\\name\\"#)
        .map(|o| offset + o)
    {
''', '''        .find(NAME_KEY)
        .map(|o| offset + o)
    {
'''), ("src/clientinfo.rs", '''pub fn clientinfo(data''', '''const NAME_KEY: &[u8] = b"\\\\name\\\\";

pub fn clientinfo(data'''))
r("frame_no_cursor", ("src/qw/frame.rs", '''        let multi_bytes = match target {
            Target::Multiple => numsize::LONG, // skip multi target bytes [0,0,0,0]
            _ => 0,
        };
        cur.set_position(cur.position() + multi_bytes as u64);
''', '''        if target == Target::Multiple {
            // skip multi target bytes [0,0,0,0]
            let pos = cur.position();
            cur.set_position(pos + numsize::LONG as u64);
        }
'''))
r("frame_get_bytes", ("src/qw/frame.rs", '''        let mut cur = Cursor::new(frame_data);

        let duration = cur.read_byte()? as u32;

        let (target, command) = {
            let byte = cur.read_byte()?;
            (Target::from(&byte), Command::from(&byte))
        };

        let multi_bytes = match target {
            Target::Multiple => numsize::LONG, // skip multi target bytes [0,0,0,0]
            _ => 0,
        };
        cur.set_position(cur.position() + multi_bytes as u64);

        let body_size = match command {
            Command::Read => cur.read_u32()? as usize,
            Command::Set => 2 * numsize::LONG, // reads 2 longs (8 bytes)
            _ => 0,                            // should not happen
        };

        let header_size = cur.position() as usize;
        let size = header_size + body_size;

        if frame_data.len() < size {
            return Err(e!("Frame is smaller than expected size"));
        }
''', '''        let &[duration, kind, ..] = frame_data else {
            return Err(e!("failed to read byte"));
        };
        let duration = u32::from(duration);
        let target = Target::from(&kind);
        let command = Command::from(&kind);

        let mut header_size = 2;
        if target == Target::Multiple {
            header_size += numsize::LONG; // skip multi target bytes [0,0,0,0]
        }

        let body_size = match command {
            Command::Read => {
                let rest = frame_data.get(header_size..).unwrap_or_default();
                header_size += numsize::LONG;
                Cursor::new(rest).read_u32()? as usize
            }
            Command::Set => 2 * numsize::LONG, // reads 2 longs (8 bytes)
            _ => 0,                            // should not happen
        };

        let size = header_size + body_size;

        if size > frame_data.len() {
            return Err(e!("Frame is smaller than expected size"));
        }
'''))
r("frame_from_type", ("src/qw/frame.rs", '''        let (target, command) = {
            let byte = cur.read_byte()?;
            (Target::from(&byte), Command::from(&byte))
        };
''', '''        let byte = cur.read_byte()?;
        let command = Command::from(&byte);
        let target = Target::from(&byte);
'''))
r("block_no_number", ("src/qw/block.rs", '''        let Some(body_size) = (cur.read_u32()? as usize).checked_sub(numsize::SHORT) else {
            return Err(e!("Block is smaller than expected size"));
        };

        Ok(Info {
            body_size,
            total_size: HEADER_SIZE + body_size,
            hidden_message: HiddenMessage::from(&cur.read_u16()?),
            number: cur.read_u16()? as usize,
        })
''', '''        let size = cur.read_u32()? as usize;
        if size < numsize::SHORT {
            return Err(e!("Block is smaller than expected size"));
        }
        let kind = cur.read_u16()?;
        let number = usize::from(cur.read_u16()?);

        Ok(Info {
            body_size: size - numsize::SHORT,
            total_size: size + HEADER_SIZE - numsize::SHORT,
            hidden_message: HiddenMessage::from(&kind),
            number,
        })
'''))
r("primitives_bstring_while", ("src/qw/primitives.rs", '''        let mut result = Vec::new();
        let mut buf = [0; 1];
        loop {
            self.read_exact(&mut buf)
                .map_err(|_| err_other("failed to read string"))?;
            if buf == [0] {
                break;
            }
            result.push(buf[0]);
        }
        Ok(result)
''', '''        let mut result = vec![];
        let mut next = || -> Result<u8> {
            let mut buf = [0; 1];
            match self.read_exact(&mut buf) {
                Ok(()) => Ok(buf[0]),
                Err(_) => Err(err_other("failed to read string")),
            }
        };
        let mut byte = next()?;
        while byte != 0 {
            result.push(byte);
            byte = next()?;
        }
        Ok(result)
'''))
r("flagevent_table", ("src/qw/flagevent.rs", '''        for (index, needles) in print_types {
            if let Some(pos) = needles.iter().find_map(|n| value.find(n)) {
                let player = value[..pos].to_string();
''', '''        for (index, needles) in &print_types {
            for needle in needles {
                let Some((player, _)) = value.split_once(*needle) else {
                    continue;
                };
                let player = player.to_string();
'''), ("src/qw/flagevent.rs", '''                    _ => {}
                }
            }
''', '''                    _ => break,
                }
            }
'''))
r("fragevent_before", ("src/qw/fragevent.rs", '''        if let Some(pos) = X_DEATH.iter().find_map(|&p| value.find(p)) {
            return Ok(FragEvent::Death {
                player: value[..pos].to_string(),
            });
        } else if let Some(pos)''', '''        let before = |needles: &[&str]| {
            needles
                .iter()
                .find_map(|n| value.split_once(*n))
                .map(|(name, _)| name.to_string())
        };
        if let Some(player) = before(&X_DEATH) {
            return Ok(FragEvent::Death { player });
        } else if let Some(pos)'''))
r("fragevent_suffix", ("src/qw/fragevent.rs", '''        } else if let Some(player) = value.strip_suffix(X_SUICIDE) {
            return Ok(FragEvent::Suicide {
                player: player.to_string(),
            });
        }''', '''        } else if value.ends_with(X_SUICIDE) {
            return Ok(FragEvent::Suicide {
                player: value[..value.len() - X_SUICIDE.len()].to_string(),
            });
        }'''))
r("fragevent_pattern_split", ("src/qw/fragevent.rs", '''    let (x, y) = match pattern.contains(WILDCARD) {
        true => {
            let (prefix, suffix) = pattern.split_once(WILDCARD)?;
            let (x, rest) = value.split_once(prefix)?;
            let (y, _) = rest.split_once(suffix)?;
            (x, y)
        }
        false => value.split_once(pattern)?,
    };

    Some((x.to_string(), y.to_string()))
''', '''    let (x, y) = if let Some((prefix, suffix)) = pattern.split_once(WILDCARD) {
        let (x, rest) = value.split_once(prefix)?;
        rest.split_once(suffix).map(|(y, _)| (x, y))?
    } else {
        value.split_once(pattern)?
    };

    Some((x.to_owned(), y.to_owned()))
'''))
r("player_from_parts", ("src/player.rs", '''        let auth_username = match !player.login.is_empty() {
            true => Some(player.login.clone()),
            false => None,
        };
''', '''        let auth_username = (!player.login.is_empty()).then(|| player.login.to_string());
'''), ("src/player.rs", '''            color: [
                player.top_color.clamp(0, 255) as u8,
                player.bottom_color.clamp(0, 255) as u8,
            ],''', '''            color: [player.top_color, player.bottom_color].map(|c| c.clamp(0, 255) as u8),'''))
r("player_try_from_ping", ("src/player.rs", "ping: player.ping.max(0) as u32,", "ping: u32::try_from(player.ping).unwrap_or(0),"), ("src/player.rs", "player.bot.is_some() || player.ping == BOT_PING", "player.ping == BOT_PING || player.bot.is_some()"))
r("client_color_helper", ("src/client.rs", '''            color: [
                value.topcolor.unwrap_or(0).clamp(0, 255) as u8,
                value.bottomcolor.unwrap_or(0).clamp(0, 255) as u8,
            ],
            is_spectator: value.spectator.is_some_and(|v| v != 0),''', '''            color: [color(value.topcolor), color(value.bottomcolor)],
            is_spectator: !matches!(value.spectator, None | Some(0)),'''), ("src/client.rs", '''impl From<&Clientinfo>''', '''fn color(value: Option<i32>) -> u8 {
    match value {
        Some(v) if v > 255 => 255,
        Some(v) if v > 0 => v as u8,
        _ => 0,
    }
}

impl From<&Clientinfo>'''))
r("clients_enumerate", ("src/clients.rs", '''    let clients: Vec<Client> = (0..=u8::MAX)
        .zip(clientinfo::clientinfo(data)?.iter())
        .map(|(number, info)| {
            let mut client = Client::from(info);
            client.number = number;
            client
        })
        .collect();
    Ok(clients)
''', '''    let infos = clientinfo::clientinfo(data)?;
    let clients = infos
        .iter()
        .take(256)
        .enumerate()
        .map(|(i, info)| Client {
            number: i as u8,
            ..Client::from(info)
        })
        .collect();
    Ok(clients)
'''))
r("clients_partition", ("src/clients.rs", '''    let spectators = clients(data)?
        .iter()
        .filter(|c| c.is_spectator)
        .cloned()
        .collect();
    Ok(spectators)
''', '''    let (spectators, _) = clients(data)?.into_iter().partition(|c| c.is_spectator);
    Ok(spectators)
'''))
r("clients_retain", ("src/clients.rs", '''    let players = clients(data)?
        .iter()
        .filter(|c| !c.is_spectator)
        .cloned()
        .collect();
    Ok(players)
''', '''    let mut players = clients(data)?;
    players.retain(|c| !c.is_spectator);
    Ok(players)
'''))
r("clients_bots_first", ("src/clients.rs", '''    if player_clients(data)?.iter().any(|c| c.is_bot) {
        return Ok(true);
    }

    Ok(data.rfind(br#""bot": {"#).is_some())
''', '''    let players = player_clients(data)?;
    let recorded = data.contains_str(r#""bot": {"#);
    Ok(recorded || players.iter().any(|c| c.is_bot))
'''))
r("timestamp_single", ("src/timestamp.rs", '''    match Utc.timestamp_opt(epoch as i64, 0) {
        LocalResult::Single(ts) => Ok(ts),
        LocalResult::Ambiguous(earliest, _) => Ok(earliest),
        _ => Err(e!("Unable to parse timestamp from epoch")),
    }
''', '''    Utc.timestamp_opt(epoch as i64, 0)
        .earliest()
        .ok_or_else(|| e!("Unable to parse timestamp from epoch"))
'''), ("src/timestamp.rs", "use chrono::{DateTime, LocalResult, TimeZone, Utc};", "use chrono::{DateTime, TimeZone, Utc};"))
r("ktxstats_for_blocks", ("src/ktxstats.rs", '''    let Some(mut offset) = data
        .rfind(br#"{"version": "#)
        .and_then(|o| o.checked_sub(TOTAL_HEADER_SIZE))
    else {
        return Err(e!("ktxstats not found"));
    };
''', '''    let not_found = || e!("ktxstats not found");
    let start = data.rfind(br#"{"version": "#).ok_or_else(not_found)?;
    if start < TOTAL_HEADER_SIZE {
        return Err(not_found());
    }
    let mut offset = start - TOTAL_HEADER_SIZE;
'''), ("src/ktxstats.rs", '''        if info.number == 0 {
            break;
        }

        offset += info.body_size;
''', '''        offset += info.body_size;

        if info.number == 0 {
            break;
        }
'''))
r("ktxstats_append_helper", ("src/ktxstats.rs", '''        offset += TOTAL_HEADER_SIZE;
        let Some(body) = data.get(offset..offset + info.body_size) else {
            return Err(e!("ktxstats is truncated"));
        };
        content.extend_from_slice(body);
''', '''        let body_from = offset + TOTAL_HEADER_SIZE;
        let body_to = body_from + info.body_size;
        if body_to > data.len() {
            return Err(e!("ktxstats is truncated"));
        }
        content.extend(&data[body_from..body_to]);
        offset = body_from;
'''))
r("validate_end_with", ("src/validate.rs", "data.len() > NEEDLE_LEN && data[data.len() - NEEDLE_LEN..] == NEEDLE", "data.len() > NEEDLE_LEN && data.ends_with(&NEEDLE)"))
r("validate_strip", ("src/validate.rs", "data.len() > NEEDLE_LEN && data[data.len() - NEEDLE_LEN..] == NEEDLE", "matches!(data.strip_suffix(&NEEDLE), Some(rest) if !rest.is_empty())"))
r("paused_end_checked_last", ("src/paused.rs", '''    if has_end_of_demo_print(data) {
        return false;
    }

''', ''), ("src/paused.rs", "data.rfind(IS_PAUSED_NEEDLE).is_some() || data.rfind(PAUSED_THE_GAME_NEEDLE).is_some()", '''let found = |needle: &[u8]| data.find(needle).is_some();
    (found(&PAUSED_THE_GAME_NEEDLE) || found(&IS_PAUSED_NEEDLE)) && !has_end_of_demo_print(data)'''))
r("filename_and_then", ("src/filename.rs", '''    let Some(serverdemo) = serverinfo(data)?.serverdemo else {
        return Err(e!("Filename not found"));
    };
    Ok(serverdemo)
''', '''    serverinfo(data).and_then(|info| info.serverdemo.ok_or_else(|| e!("Filename not found")))
'''))
FRAMES = ("src/qw/frame.rs", '''#[derive(Clone, Debug, PartialEq)]
pub struct SliceInfo {''', '''pub struct Frames<'a> {
    data: &'a [u8],
    index: usize,
}

pub fn frames(data: &[u8]) -> Frames<'_> {
    Frames { data, index: 0 }
}

impl Iterator for Frames<'_> {
    type Item = Info;

    fn next(&mut self) -> Option<Info> {
        let info = Info::from_data_and_index(self.data, self.index).ok()?;
        self.index += info.size;
        Some(info)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct SliceInfo {''')
r("walkers_frames_iterator", FRAMES, ("src/prints.rs", '''    let mut index = 0;
    let mut prints: Vec<Print> = Vec::new();

    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
''', '''    let mut prints: Vec<Print> = Vec::new();

    for info in frame::frames(data) {
'''), ("src/prints.rs", '''
        index += info.size;
    }
''', '''    }
'''), ("src/duration.rs", '''    let mut index = 0;
    let mut total_ms: u64 = 0;

    while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
        if index >= target_offset {
            break;
        }

        total_ms += u64::from(frame_info.duration);
        index += frame_info.size;
    }

    Duration::from_millis(total_ms)
''', '''    let total_ms = frame::frames(data)
        .take_while(|info| info.index < target_offset)
        .map(|info| u64::from(info.duration))
        .sum();

    Duration::from_millis(total_ms)
'''))
r("walkers_frames_iterator2", FRAMES, ("src/frags.rs", '''    let mut index = 0;
    let mut print_frames: Vec<(Print, frame::Info)> = vec![];

    while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
        if frame_info.body_size == 0 {
            index += frame_info.size;
            continue;
        }
''', '''    let mut print_frames: Vec<(Print, frame::Info)> = vec![];

    for frame_info in frame::frames(data).filter(|f| f.body_size > 0) {
'''), ("src/frags.rs", '''            }
        }

        index += frame_info.size;
    }
''', '''            }
        }
    }
'''), ("src/ping.rs", '''    let mut index = 0;
    let mut total_pings: HashMap<u8, Vec<u16>> = HashMap::new();

    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
''', '''    let mut total_pings: HashMap<u8, Vec<u16>> = HashMap::new();

    for info in frame::frames(data) {
'''), ("src/ping.rs", '''            break;
        }

        index += info.size;
    }
''', '''            break;
        }
    }
'''))
r("frags_add_closure", ("src/frags.rs", '''                FragEvent::Frag { killer, .. } => {
                    let killer = frags.entry(killer).or_insert(0);
                    *killer += 1;
                }
                FragEvent::Death { player } => {
                    let player = frags.entry(player).or_insert(0);
                    *player -= 1;
                }
                FragEvent::Suicide { player } => {
                    let player = frags.entry(player).or_insert(0);
                    *player -= 2;
                }
                FragEvent::SuicideByWeapon { player } => {
                    let player = frags.entry(player).or_insert(0);
                    *player -= 1;
                }
                FragEvent::Teamkill { killer } => {
                    let killer = frags.entry(killer).or_insert(0);
                    *killer -= 1;
                }
                FragEvent::TeamkillByUnknown { victim } => {
                    if let Ok(name) = find_team_killer(data, frame_info.index, &victim) {
                        let killer = frags.entry(name).or_insert(0);
                        *killer -= 1;
                    }
                }
''', '''                FragEvent::Frag { killer, .. } => add(killer, 1),
                FragEvent::Suicide { player } => add(player, -2),
                FragEvent::Death { player: name }
                | FragEvent::SuicideByWeapon { player: name }
                | FragEvent::Teamkill { killer: name } => add(name, -1),
                FragEvent::TeamkillByUnknown { victim } => {
                    if let Ok(name) = find_team_killer(data, frame_info.index, &victim) {
                        add(name, -1);
                    }
                }
'''), ("src/frags.rs", '''    for (print, frame_info) in print_frames {
''', '''    let mut add = |name: String, points: i32| *frags.entry(name).or_default() += points;

    for (print, frame_info) in print_frames {
'''))
r("frags_if_let_event", ("src/frags.rs", '''            if let Ok(p) = body.read_print() {
                if !p.content.is_empty() && PrintId::Medium == p.id {
                    print_frames.push((p, frame_info.clone()))
                }
            }
''', '''            let print = body.read_print();
            if let Some(p) = print.ok().filter(|p| p.id == PrintId::Medium) {
                if p.content.len() > 0 {
                    print_frames.push((p, frame_info.clone()))
                }
            }
'''))
r("frags_killer_ok_or_else", ("src/frags.rs", '''    match killer {
        Some(killer) => Ok(killer),
        None => Err(e!("Unable to find team killer")),
    }
''', '''    killer.ok_or_else(|| e!("Unable to find team killer"))
'''), ("src/frags.rs", '''    let clients = clients::clients(data)?;
    let Some(victim_client) = clients.iter().find(|c| c.name == *victim_name) else {
        return Err(e!("Unable to find victim"));
    };
''', '''    let clients = clients::clients(data)?;
    let victim_client = clients
        .iter()
        .find(|c| c.name == victim_name)
        .ok_or_else(|| e!("Unable to find victim"))?;
'''))
r("frags_killer_flat_map", ("src/frags.rs", '''        .filter_map(|player_number| clients.iter().find(|c| c.number == *player_number))
        .find(|c| c.team == victim_client.team && c.name != victim_client.name)
        .map(|c| c.name.clone());
''', '''        .flat_map(|player_number| clients.iter().find(|c| c.number == *player_number))
        .filter(|c| c.team == victim_client.team)
        .find(|c| c.name != victim_client.name)
        .map(|c| c.name.to_owned());
'''))
r("flags_mem_take", ("src/flags.rs", '''                            prints.push(current_print);
                            current_print = vec![];
''', '''                            prints.push(std::mem::take(&mut current_print));
'''))
r("flags_suffix_hoisted", ("src/flags.rs", '''    [
        flagprint::X_RETURNED_FLAG.to_vec(),
        flagprint::X_GOT_FLAG.to_vec(),
        flagprint::X_CAPTURED_FLAG.to_vec(),
    ]
    .iter()
    .flatten()
    .any(|n| quake_text::bytestr::to_unicode(print).ends_with(n))
''', '''    let text = quake_text::bytestr::to_unicode(print);
    let suffixes = [
        flagprint::X_RETURNED_FLAG,
        flagprint::X_GOT_FLAG,
        flagprint::X_CAPTURED_FLAG,
    ];
    for group in suffixes {
        for suffix in group {
            if text.ends_with(suffix) {
                return true;
            }
        }
    }
    false
'''))
r("flags_let_else", ("src/flags.rs", '''                if let Ok(p) = body.read_print() {
                    if p.id == PrintId::High && !p.content.is_empty() {
                        let is_continuation =
                            !current_print.ends_with(b"\\n") && is_message_suffix(&p.content);

                        if !current_print.is_empty() && !is_continuation {
                            prints.push(current_print);
                            current_print = vec![];
                        }

                        current_print.extend_from_slice(&p.content);
                    }
                }
''', '''                let Ok(mut p) = body.read_print() else {
                    continue;
                };
                if p.content.is_empty() || p.id != PrintId::High {
                    continue;
                }
                let complete = current_print.ends_with(b"\\n") || !is_message_suffix(&p.content);

                if complete && !current_print.is_empty() {
                    prints.push(current_print);
                    current_print = vec![];
                }

                current_print.append(&mut p.content);
'''))
r("flags_body_let", ("src/flags.rs", '''        if frame_info.body_size == 0 || data[frame_info.clone().body_range].find(b"flag").is_none()
        {
            index += frame_info.size;
            continue;
        }

        let mut body = Cursor::new(&data[frame_info.clone().body_range]);
''', '''        index += frame_info.size;

        let bytes = &data[frame_info.body_range];
        if !bytes.contains_str("flag") {
            continue;
        }

        let mut body = Cursor::new(bytes);
'''), ("src/flags.rs", '''            prints.push(current_print);
        }

        index += frame_info.size;
    }
''', '''            prints.push(current_print);
        }
    }
'''))
r("prints_index_first", ("src/prints.rs", '''        if info.body_size > 0 {
            let mut body''', '''        index += info.size;

        if !info.body_range.is_empty() {
            let mut body'''), ("src/prints.rs", '''
        index += info.size;
    }
''', '''    }
'''))
r("duration_matches_mode", ("src/duration.rs", '''    if serverinfo(data).is_ok_and(|s| s.mode == Some("hoonymode".to_string())) {
        return Ok(Duration::ZERO);
    }

    let Some(offset) = data.find(matchdate::MATCHDATE_NEEDLE) else {
        return Err(e!("Countdown not found"));
    };
    Ok(duration_until_offset(data, offset))
''', '''    match serverinfo(data) {
        Ok(info) if info.mode.as_deref() == Some("hoonymode") => Ok(Duration::ZERO),
        _ => data
            .find(matchdate::MATCHDATE_NEEDLE)
            .map(|offset| duration_until_offset(data, offset))
            .ok_or_else(|| e!("Countdown not found")),
    }
'''))
r("duration_seeking_if", ("src/duration.rs", '''    let begin = countdown_duration(data).unwrap_or(Duration::ZERO);
    Ok(end.saturating_sub(begin))
''', '''    let begin = match countdown_duration(data) {
        Ok(begin) if begin < end => begin,
        Ok(_) => end,
        Err(_) => Duration::ZERO,
    };
    Ok(end - begin)
'''))
r("players_collect_map", ("src/players.rs", '''    let mut pmap: BTreeMap<u8, Player> = BTreeMap::new();

    for c in clients.iter().filter(|c| !c.is_spectator) {
        let player = Player {
            name: c.name.clone(),
            team: c.team.clone(),
            color: c.color,
            frags: *frags.get(&c.name).unwrap_or(&0),
            ping: *pings.get(&c.number).unwrap_or(&0),
            auth_username: c.auth_username.clone(),
            auth_cc: c.auth_cc.clone(),
            is_bot: c.is_bot,
        };
        pmap.insert(c.number, player);
    }

    let mut players: Vec<Player> = pmap.values().cloned().collect();
''', '''    let mut players: Vec<Player> = clients
        .into_iter()
        .filter(|c| !c.is_spectator)
        .map(|c| Player {
            frags: frags.get(&c.name).copied().unwrap_or_default(),
            ping: pings.get(&c.number).copied().unwrap_or_default(),
            name: c.name,
            team: c.team,
            color: c.color,
            auth_username: c.auth_username,
            auth_cc: c.auth_cc,
            is_bot: c.is_bot,
        })
        .collect();
'''), ("src/players.rs", "use std::collections::BTreeMap;\n\n", ""))
r("players_question", ("src/players.rs", '''    if let Ok(stats) = ktxstats_v3(data) {
        players_from_ktxstats(&stats)
    } else {
        players_from_parsing(data)
    }
''', '''    ktxstats_v3(data).map_or_else(|_| players_from_parsing(data), |stats| players_from_ktxstats(&stats))
'''))
r("team_sum_iter", ("src/team.rs", '''        let mut total_ping: u64 = 0;

        for player in players.iter() {
            team.players.push(player.clone());
            team.frags = team.frags.saturating_add(player.frags);
            total_ping += u64::from(player.ping);
        }

        let player_count = team.players.len() as u64;
''', '''        team.players = players.to_vec();
        team.frags = players.iter().fold(0, |sum: i32, p| sum.saturating_add(p.frags));
        let total_ping: u64 = players.iter().map(|p| p.ping as u64).sum();

        let player_count = players.len() as u64;
'''))
r("team_round_mod", ("src/team.rs", "team.ping = ((total_ping + player_count / 2) / player_count) as u32;", '''team.ping = (total_ping / player_count) as u32;
        if total_ping % player_count >= player_count - player_count / 2 {
            team.ping += 1;
        }'''))
r("teams_entry_or_insert_with", ("src/team.rs", '''        let teamplayers = tmap.entry(player.team.clone()).or_default();
        teamplayers.push(player.clone());
''', '''        tmap.entry(player.team.to_string())
            .or_insert_with(Vec::new)
            .push(player.to_owned());
'''), ("src/team.rs", '''    for teamplayers in tmap.values() {
        teams.push(Team::from(teamplayers.as_slice()))
    }
''', '''    for (_, teamplayers) in &tmap {
        let team = Team::from(&teamplayers[..]);
        teams.push(team);
    }
'''))
