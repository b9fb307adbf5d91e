From 89a0b441cbac4f51656c4fe9be9258102f094866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 01/24] fix: serverinfo_string panicked on demos shorter than
 1280 bytes

---
 src/serverinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index 2e29027..8fe3655 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -11,7 +11,7 @@ pub fn serverinfo_string(data: &[u8]) -> Result<String> {
     const MAX_OFFSET: usize = 256;
     const MAX_SIZE: usize = 1024;
     let Some((from, to)) = bytesextra::offsets_between(
-        &data[..MAX_OFFSET + MAX_SIZE],
+        &data[..data.len().min(MAX_OFFSET + MAX_SIZE)],
         br#"fullserverinfo ""#,
         &[b'"'],
     ) else {
-- 
2.43.0


From 9694b5ee3fc2afd33ff6bb176e6fd2a1953aa6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 02/24] fix: clientinfo_strings panicked when less than 512
 bytes follow the last client

---
 src/clientinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index cfd775e..a204d25 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -24,7 +24,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
 
     let mut result: Vec<String> = vec![];
 
-    while let Some(name_offset) = data[offset..offset + MAX_LOOKAHEAD]
+    while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
         .map(|o| offset + o)
     {
-- 
2.43.0


From bdb5529efcbc9b7bef10e334607dab98aac69506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 03/24] fix: frame info of a truncated last frame claimed a
 body outside of the demo

---
 src/qw/frame.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 8dab71e..6f234b5 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -24,7 +24,10 @@ pub struct Info {
 
 impl Info {
     pub fn from_data_and_index(data: &[u8], index: usize) -> Result<Self> {
-        let mut cur = Cursor::new(&data[index..]);
+        let Some(frame_data) = data.get(index..) else {
+            return Err(e!("Frame is smaller than expected size"));
+        };
+        let mut cur = Cursor::new(frame_data);
 
         let duration = cur.read_byte()? as u32;
 
@@ -48,7 +51,7 @@ impl Info {
         let header_size = cur.position() as usize;
         let size = header_size + body_size;
 
-        if data.len() < size {
+        if frame_data.len() < size {
             return Err(e!("Frame is smaller than expected size"));
         }
 
-- 
2.43.0


From 8406524b1b14699b99be0edccc2d215f1ff61713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 04/24] fix: block info underflowed on a block size below 2

---
 src/qw/block.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qw/block.rs b/src/qw/block.rs
index db73330..0fb3269 100644
--- a/src/qw/block.rs
+++ b/src/qw/block.rs
@@ -1,5 +1,7 @@
 use std::io::Cursor;
 
+use anyhow::anyhow as e;
+
 use crate::qw::primitives::{numsize, ReadPrimitives};
 use crate::qw::prot::HiddenMessage;
 
@@ -19,7 +21,9 @@ impl TryFrom<&[u8]> for Info {
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
         let mut cur = Cursor::new(value);
         // exclude block number bytes from size
-        let body_size = cur.read_u32()? as usize - numsize::SHORT;
+        let Some(body_size) = (cur.read_u32()? as usize).checked_sub(numsize::SHORT) else {
+            return Err(e!("Block is smaller than expected size"));
+        };
 
         Ok(Info {
             body_size,
-- 
2.43.0


From e3e89d231326e2f2aeadcec1a5f20a30de92b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 05/24] fix: ktxstats_string panicked on misplaced or truncated
 blocks

---
 src/ktxstats.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ktxstats.rs b/src/ktxstats.rs
index 50f839c..4b4fddc 100644
--- a/src/ktxstats.rs
+++ b/src/ktxstats.rs
@@ -15,20 +15,25 @@ pub fn ktxstats_v3(data: &[u8]) -> Result<KtxstatsV3> {
 pub fn ktxstats_string(data: &[u8]) -> Result<String> {
     const TOTAL_HEADER_SIZE: usize = frame::MULTI_HEADER_SIZE + block::HEADER_SIZE;
 
-    let Some(mut offset) = data.rfind(br#"{"version": "#) else {
+    let Some(mut offset) = data
+        .rfind(br#"{"version": "#)
+        .and_then(|o| o.checked_sub(TOTAL_HEADER_SIZE))
+    else {
         return Err(e!("ktxstats not found"));
     };
-    offset -= TOTAL_HEADER_SIZE;
     let mut content = Vec::new();
 
     // read blocks
-    while let Ok(info) = block::Info::try_from(&data[offset + frame::MULTI_HEADER_SIZE..]) {
+    while let Ok(info) = block::Info::try_from(block_data(data, offset)) {
         if info.hidden_message != HiddenMessage::Demoinfo {
             break;
         }
 
         offset += TOTAL_HEADER_SIZE;
-        content.extend_from_slice(&data[offset..offset + info.body_size]);
+        let Some(body) = data.get(offset..offset + info.body_size) else {
+            return Err(e!("ktxstats is truncated"));
+        };
+        content.extend_from_slice(body);
 
         if info.number == 0 {
             break;
@@ -40,6 +45,11 @@ pub fn ktxstats_string(data: &[u8]) -> Result<String> {
     Ok(from_utf8(&content)?.to_string())
 }
 
+fn block_data(data: &[u8], offset: usize) -> &[u8] {
+    data.get(offset + frame::MULTI_HEADER_SIZE..)
+        .unwrap_or_default()
+}
+
 #[cfg(test)]
 mod tests {
     use std::fs::{read, read_to_string};
-- 
2.43.0


From 27166477435bcf4997809653c50835d995534445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 06/24] fix: match_duration_from_seeking panicked when the
 match ends before the countdown

---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 9e876ac..6075781 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -43,7 +43,7 @@ pub fn match_duration(data: &[u8]) -> Result<Duration> {
 pub fn match_duration_from_seeking(data: &[u8]) -> Result<Duration> {
     let end = demo_duration(data)?;
     let begin = countdown_duration(data).unwrap_or(Duration::ZERO);
-    Ok(end - begin)
+    Ok(end.saturating_sub(begin))
 }
 
 pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
-- 
2.43.0


From 8c31450079893eb1d8c66065bde1db00e94c14be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 07/24] fix: match_duration_from_ktxstats panicked on a
 negative or huge duration

---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 6075781..d417ee7 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -54,7 +54,7 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
         return Err(e!("Duration not found in ktxstats"));
     };
     let duration_f: f64 = ktxstats_s[from..to].parse()?;
-    Ok(Duration::from_secs_f64(duration_f))
+    Ok(Duration::try_from_secs_f64(duration_f)?)
 }
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
-- 
2.43.0


From 1f76b3a7785059fbeea5624c16512d367b802ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 08/24] fix: total demo milliseconds overflowed

---
 src/duration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index d417ee7..5d2bc4c 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -59,14 +59,14 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
     let mut index = 0;
-    let mut total_ms: u32 = 0;
+    let mut total_ms: u64 = 0;
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
         if index >= target_offset {
             break;
         }
 
-        total_ms += frame_info.duration;
+        total_ms += u64::from(frame_info.duration);
         index += frame_info.size;
     }
 
-- 
2.43.0


From 9f049d5643978b06f8b5492f61e0cf8ebab37b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 09/24] fix: ping sum overflowed

---
 src/ping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ping.rs b/src/ping.rs
index 2d0fc13..faed447 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -51,7 +51,7 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut average_ping: HashMap<u8, u32> = HashMap::new();
 
     for (pnum, pings) in total_pings.iter() {
-        let pings_sum = pings.iter().sum::<u16>();
+        let pings_sum = pings.iter().map(|p| u64::from(*p)).sum::<u64>();
         let avg_ping = (pings_sum as f32 / pings.len() as f32) as u32;
         average_ping.insert(*pnum, avg_ping);
     }
-- 
2.43.0


From 44c9bf8d928303de364add9166b57278f17ba4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 10/24] fix: matchdate panicked on multi-byte characters

---
 src/matchdate.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/matchdate.rs b/src/matchdate.rs
index 7cd32dd..4ee39cb 100644
--- a/src/matchdate.rs
+++ b/src/matchdate.rs
@@ -18,11 +18,16 @@ pub fn matchdate(data: &[u8]) -> Result<DateTime<Utc>> {
 }
 
 fn replace_tz_abbr_with_offset(timestamp: &str) -> Result<String> {
-    let tz_abbr = &timestamp[DATETIME_LEN + 1..];
+    let (Some(datetime), Some(tz_abbr)) = (
+        timestamp.get(..DATETIME_LEN),
+        timestamp.get(DATETIME_LEN + 1..),
+    ) else {
+        return Err(e!("Invalid matchdate"));
+    };
     let Some(tz_offset) = timezone::utc_offset(tz_abbr) else {
         return Err(e!("Invalid timezone abbreviation"));
     };
-    Ok(format!("{}{}", &timestamp[..DATETIME_LEN], tz_offset))
+    Ok(format!("{}{}", datetime, tz_offset))
 }
 
 pub fn matchdate_string(data: &[u8]) -> Result<String> {
-- 
2.43.0


From d6c838d38fd82fd6ff90b6cb096be3a88573cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 11/24] fix: flag event counters overflowed at 256 events

---
 src/flags.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 9caeeb8..bce6c8a 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -12,13 +12,13 @@ use crate::qw::prot::{MessageType, PrintId};
 
 #[derive(Debug, Default, PartialEq, Eq)]
 pub struct PlayerFlagEvents {
-    captures: u8,
-    pickups: u8,
-    returns: u8,
-    carrier_frags: u8,
-    defends: u8,
-    carrier_defends: u8,
-    carrier_defends_vs_aggressive: u8,
+    captures: u32,
+    pickups: u32,
+    returns: u32,
+    carrier_frags: u32,
+    defends: u32,
+    carrier_defends: u32,
+    carrier_defends_vs_aggressive: u32,
 }
 
 pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEvents> {
-- 
2.43.0


From f9adb42fc5cdb0068f847ff78c577ce462c6a9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 12/24] fix: team totals overflowed

---
 src/team.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index dbb4d18..f13c0d0 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -25,13 +25,15 @@ impl From<&[Player]> for Team {
             color: [0, 0],
         };
 
+        let mut total_ping: u64 = 0;
+
         for player in players.iter() {
             team.players.push(player.clone());
-            team.frags += player.frags;
-            team.ping += player.ping;
+            team.frags = team.frags.saturating_add(player.frags);
+            total_ping += u64::from(player.ping);
         }
 
-        team.ping = (team.ping as f32 / team.players.len() as f32).round() as u32;
+        team.ping = (total_ping as f32 / team.players.len() as f32).round() as u32;
         let player_colors: Vec<[u8; 2]> = team.players.iter().map(|p| p.color).collect();
         team.color = majority_color(&player_colors).unwrap_or(players[0].color);
 
-- 
2.43.0


From 5097a1d30bb011bd0c3807a88a28284467e26536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 13/24] fix: majority color of a team depended on hash order
 and overflowed

---
 src/team.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index f13c0d0..07f5eaa 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -66,7 +66,7 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
         _ => {}
     };
 
-    let mut color_count: HashMap<[u8; 2], u8> = HashMap::new();
+    let mut color_count: HashMap<[u8; 2], usize> = HashMap::new();
     for color in colors.iter() {
         let count = color_count.entry(*color).or_insert(0);
         *count += 1;
@@ -74,10 +74,11 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
 
     let mut max_color = None;
     let mut max_count = 0;
-    for (color, count) in color_count.iter() {
-        if *count > max_count {
+    for color in colors.iter() {
+        let count = color_count.get(color).copied().unwrap_or_default();
+        if count > max_count {
             max_color = Some(*color);
-            max_count = *count;
+            max_count = count;
         }
     }
 
-- 
2.43.0


From d42e452f438a0704adb05928f0fe533bb79efe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 14/24] fix: order of tied players depended on hash order

---
 src/players.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/players.rs b/src/players.rs
index 0214868..c48d0b9 100644
--- a/src/players.rs
+++ b/src/players.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use anyhow::Result;
 use ktxstats::v3::KtxstatsV3;
@@ -28,7 +28,7 @@ pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
     let clients = clients(data)?;
     let pings = ping_per_player_number(data)?;
     let frags = frags_per_player_name(data);
-    let mut pmap: HashMap<u8, Player> = HashMap::new();
+    let mut pmap: BTreeMap<u8, Player> = BTreeMap::new();
 
     for c in clients.iter().filter(|c| !c.is_spectator) {
         let player = Player {
-- 
2.43.0


From 4714627f34b0cae743788da50e30c43f1c32a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 15/24] fix: order of tied teams depended on hash order

---
 src/team.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index 07f5eaa..41896a5 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use crate::player::Player;
 
@@ -42,7 +42,7 @@ impl From<&[Player]> for Team {
 }
 
 pub fn teams_from_players(players: &[Player]) -> Vec<Team> {
-    let mut tmap: HashMap<String, Vec<Player>> = HashMap::new();
+    let mut tmap: BTreeMap<String, Vec<Player>> = BTreeMap::new();
     for player in players.iter() {
         let teamplayers = tmap.entry(player.team.clone()).or_default();
         teamplayers.push(player.clone());
-- 
2.43.0


From 3888edeeabd3e169df0ac0c16f268f5bb8ca7a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 16/24] fix: client numbers above 255 wrapped onto other
 clients

---
 src/clients.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/clients.rs b/src/clients.rs
index 48710fd..9f4873e 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -6,12 +6,11 @@ use crate::client::Client;
 use crate::clientinfo;
 
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
-    let clients: Vec<Client> = clientinfo::clientinfo(data)?
-        .iter()
-        .enumerate()
+    let clients: Vec<Client> = (0..=u8::MAX)
+        .zip(clientinfo::clientinfo(data)?.iter())
         .map(|(number, info)| {
             let mut client = Client::from(info);
-            client.number = number as u8;
+            client.number = number;
             client
         })
         .collect();
-- 
2.43.0


From e0d4b3ea1fa825f133aa4cb1cdefc8af4c6b00c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 17/24] fix: colors outside of a byte and negative pings
 wrapped around

---
 src/client.rs | 4 ++--
 src/player.rs | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 78310b1..d47699e 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -19,8 +19,8 @@ impl From<&Clientinfo> for Client {
             name: value.name.clone().unwrap_or_default(),
             team: value.team.clone().unwrap_or_default(),
             color: [
-                value.topcolor.unwrap_or(0) as u8,
-                value.bottomcolor.unwrap_or(0) as u8,
+                value.topcolor.unwrap_or(0).clamp(0, 255) as u8,
+                value.bottomcolor.unwrap_or(0).clamp(0, 255) as u8,
             ],
             is_spectator: value.spectator.is_some_and(|v| v != 0),
             is_bot: value.bot.is_some_and(|v| v != 0),
diff --git a/src/player.rs b/src/player.rs
index a89465b..837612b 100644
--- a/src/player.rs
+++ b/src/player.rs
@@ -24,9 +24,12 @@ impl From<&ktxstats::v3::Player> for Player {
         Self {
             name: player.name.clone(),
             team: player.team.clone(),
-            color: [player.top_color as u8, player.bottom_color as u8],
+            color: [
+                player.top_color.clamp(0, 255) as u8,
+                player.bottom_color.clamp(0, 255) as u8,
+            ],
             frags: player.stats.frags,
-            ping: player.ping as u32,
+            ping: player.ping.max(0) as u32,
             is_bot: player.bot.is_some() || player.ping == BOT_PING,
             auth_username,
             auth_cc: None,
-- 
2.43.0


From c2a2b0f439693cb5833915b6859e3ecc5ec77af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 18/24] fix: flag announcements in the same frame were dropped
 or joined

---
 src/flags.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index bce6c8a..425f537 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -40,16 +40,15 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
             if mt == MessageType::Print {
                 if let Ok(p) = body.read_print() {
                     if p.id == PrintId::High && !p.content.is_empty() {
-                        if current_print.is_empty() {
-                            current_print.extend_from_slice(&p.content);
-                        } else {
-                            if is_message_suffix(&p.content) {
-                                current_print.extend_from_slice(&p.content);
-                            }
-
-                            prints.push(current_print.clone());
+                        let is_continuation =
+                            !current_print.ends_with(b"\n") && is_message_suffix(&p.content);
+
+                        if !current_print.is_empty() && !is_continuation {
+                            prints.push(current_print);
                             current_print = vec![];
                         }
+
+                        current_print.extend_from_slice(&p.content);
                     }
                 }
             }
-- 
2.43.0


From d1f2cbbdb2832d89997524b1fec9fb9d053ed336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 19/24] fix: list every team name once when names differ only
 in case or colour

---
 src/clients.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/clients.rs b/src/clients.rs
index 9f4873e..fcc29fe 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -69,9 +69,10 @@ pub fn team_names(data: &[u8]) -> Result<Vec<String>> {
         .map(|c| c.team.clone())
         .collect();
 
-    names = unicode::sort(&names);
+    // readable-text order keeps equal names apart when only their colours or case differ
+    names.sort();
     names.dedup();
-    Ok(names)
+    Ok(unicode::sort(&names))
 }
 
 #[cfg(test)]
-- 
2.43.0


From d924da4fce486c50c33701c1606fb481816cc6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 20/24] fix: average pings without rounding errors

---
 src/ping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ping.rs b/src/ping.rs
index faed447..8ed0aa2 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -52,7 +52,7 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
 
     for (pnum, pings) in total_pings.iter() {
         let pings_sum = pings.iter().map(|p| u64::from(*p)).sum::<u64>();
-        let avg_ping = (pings_sum as f32 / pings.len() as f32) as u32;
+        let avg_ping = (pings_sum / pings.len() as u64) as u32;
         average_ping.insert(*pnum, avg_ping);
     }
 
-- 
2.43.0


From 32541f9de74974f1b6dc8728f8e83cdfd1a29b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 21/24] fix: average team pings without rounding errors

---
 src/team.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/team.rs b/src/team.rs
index 41896a5..363e616 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -33,7 +33,8 @@ impl From<&[Player]> for Team {
             total_ping += u64::from(player.ping);
         }
 
-        team.ping = (total_ping as f32 / team.players.len() as f32).round() as u32;
+        let player_count = team.players.len() as u64;
+        team.ping = ((total_ping + player_count / 2) / player_count) as u32;
         let player_colors: Vec<[u8; 2]> = team.players.iter().map(|p| p.color).collect();
         team.color = majority_color(&player_colors).unwrap_or(players[0].color);
 
-- 
2.43.0


From f7e13bad9b105c8d38ae1d933f5682720840aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 22/24] fix: keep a player name that ends like the suicide
 message

---
 src/qw/fragevent.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qw/fragevent.rs b/src/qw/fragevent.rs
index 0ce857a..912c556 100644
--- a/src/qw/fragevent.rs
+++ b/src/qw/fragevent.rs
@@ -27,9 +27,9 @@ impl TryFrom<&str> for FragEvent {
             return Ok(FragEvent::SuicideByWeapon {
                 player: value[..pos].to_string(),
             });
-        } else if value.ends_with(X_SUICIDE) {
+        } else if let Some(player) = value.strip_suffix(X_SUICIDE) {
             return Ok(FragEvent::Suicide {
-                player: value.trim_end_matches(X_SUICIDE).to_string(),
+                player: player.to_string(),
             });
         } else if let Some(pos) = X_TEAMKILL_UNKNOWN.iter().find_map(|&p| value.find(p)) {
             return Ok(FragEvent::Teamkill {
-- 
2.43.0


From 11c2b7cc64116d066ef6cef06c5677a7e77ae393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 23/24] fix: keep milliseconds exact when frame times are added
 up

---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 5d2bc4c..dfaf37c 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -70,7 +70,7 @@ fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
         index += frame_info.size;
     }
 
-    Duration::from_secs_f32(total_ms as f32 / 1000.0)
+    Duration::from_millis(total_ms)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 930e077ca915144d7136576e039f1249d694ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 24/24] fix: numeric time zones of other than two or four
 digits are not offsets

---
 src/timezone.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/timezone.rs b/src/timezone.rs
index bf047a9..3604079 100644
--- a/src/timezone.rs
+++ b/src/timezone.rs
@@ -235,12 +235,14 @@ fn utc_offset_by_offset(offset: &str) -> Option<String> {
     };
 
     // support +xx and +xxxx
-    let offset = format!("{:0<4}", offset[1..].replace(':', ""));
+    let digits = offset[1..].replace(':', "");
 
-    if offset.len() != 4 {
+    if !matches!(digits.len(), 2 | 4) || !digits.bytes().all(|b| b.is_ascii_digit()) {
         return None;
     }
 
+    let offset = format!("{:0<4}", digits);
+
     // validate that number is between 0000 and 1200
     match offset.parse::<i32>() {
         Ok(number) if (0..=1200).contains(&number) => {
-- 
2.43.0

