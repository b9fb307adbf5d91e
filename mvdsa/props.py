"""The properties: statement, and the obligations that decide each of them."""

PROPS = []


class Prop:
    def __init__(self, id, title, statement, text, why, files, mech, entries=(), rules=(), closure=True,
                 over=("inputs",), level=None, note=None):
        self.id, self.title, self.statement, self.text, self.why = id, title, statement, text, why
        self.files, self.mech, self.entries, self.rules = files, mech, list(entries), list(rules)
        self.closure, self.over = closure, list(over)
        self.level = level or ("translation_validation" if entries else "proof")
        self.note = note
        PROPS.append(self)


def mech(*a):
    return [{"name": n, "where": w} for n, w in zip(a[::2], a[1::2])]


NOT_APPLICABLE = [
    {"property": "C06",
     "prop": {
         "id": "C06", "title": "Running time is linear in the demo's length",
         "statement": "Reading any demo takes time and memory proportional to its length. Hostile demos can not make a function quadratically slow.",
         "quantifier": {"over": ["inputs"], "text": "all byte slices"},
         "why_tests_cant": "Tests measure no time and use demos of one size.",
         "anchors": {"files": ["src/frags.rs", "src/clientinfo.rs", "src/bytesextra.rs"],
                     "mechanism": [{"name": "byte searches", "where": "src/bytesextra.rs"}]}},
     "reason": "a cost bound needs runtime quantities: the look-ahead and the repeated searches are linear or quadratic depending on how often they run on a given demo, which no static rule here bounds; termination itself is decided under C02"},
    {"property": "C35",
     "prop": {
         "id": "C35", "title": "Parsed results agree with the embedded statistics",
         "statement": "On a demo of a completed match, the players, scores and teams obtained by parsing the demo equal those of the embedded statistics. The two durations agree to within a frame.",
         "quantifier": {"over": ["inputs"], "text": "all demos recorded by a server that embeds statistics"},
         "why_tests_cant": "Only a handful of demos can be compared, and most of the demo files are missing.",
         "anchors": {"files": ["src/players.rs", "src/duration.rs"],
                     "mechanism": [{"name": "two sources of players", "where": "src/players.rs:players"}]}},
     "reason": "a numerical agreement between two independent parts of the input data, which is a fact about the recording server and not about this source; no structural clause of it is a necessary condition on the code beyond what C16, C23 and C24 state"},
]

Prop("C01", "No function panics, whatever bytes it is given",
     "Every public function of the library returns normally for every byte slice and every record it can be handed, including empty, truncated and hostile demos. "
     "It never indexes or slices out of range, never overflows integer arithmetic, never splits a character and never unwraps an absent value.",
     "all byte slices and all argument records, of any length up to the address space",
     "Tests run a few intact demos; a panic needs a particular length, offset or field value.",
     ["src/lib.rs", "src/qw/frame.rs", "src/clientinfo.rs", "src/serverinfo.rs", "src/ktxstats.rs", "src/duration.rs", "src/matchdate.rs", "src/frags.rs", "src/flags.rs", "src/team.rs"],
     mech("bounds checks before slicing", "src/qw/frame.rs:Info::from_data_and_index", "checked window ends", "src/clientinfo.rs:clientinfo_strings",
          "range-checked conversions", "src/duration.rs:match_duration_from_ktxstats"),
     rules=["panics"])

Prop("C02", "Every function terminates on every input",
     "Every public function finishes after a number of steps bounded by the length of its input. "
     "No byte sequence makes a parsing loop repeat without moving forward through the demo, and no function calls itself.",
     "all byte slices, in particular frames and messages of size zero and truncated tails",
     "A test that ends says nothing about the inputs on which a cursor stops moving.",
     ["src/prints.rs", "src/frags.rs", "src/flags.rs", "src/ping.rs", "src/duration.rs", "src/clientinfo.rs", "src/ktxstats.rs", "src/bytesextra.rs"],
     mech("offset advanced by the size of the frame on every path", "src/prints.rs, src/frags.rs, src/flags.rs, src/ping.rs, src/duration.rs",
          "window moved past the string just read", "src/clientinfo.rs:clientinfo_strings"),
     rules=["termination"])

Prop("C03", "Numbers are computed exactly, without wrap-around or truncation",
     "Counts, sums, averages, offsets and player numbers are never silently wrapped, clipped or truncated on the way from the demo to the result. "
     "A value that does not fit its destination is reported as missing or clamped to the documented range, not reduced modulo a power of two.",
     "all demos, in particular many events, many players, large pings and large sizes",
     "Overflow needs hundreds of events or extreme field values; the tests use small ones.",
     ["src/flags.rs", "src/team.rs", "src/ping.rs", "src/duration.rs", "src/clients.rs", "src/client.rs", "src/player.rs", "src/qw/frame.rs", "src/qw/block.rs"],
     mech("wide counters", "src/flags.rs, src/ping.rs, src/duration.rs", "clamping conversions", "src/client.rs, src/player.rs"),
     rules=["arithmetic"])

Prop("C04", "Equal input gives equal output, independent of hash order",
     "Calling a function twice with the same bytes gives the same result, in the same order, in every process. "
     "No element, order or tie is decided by the iteration order of a hash table, by an address or by an environment value.",
     "all demos, in particular ties between players, teams and colours",
     "Hash seeds differ per process and a tie is needed; a passing test run proves nothing about the next one.",
     ["src/team.rs", "src/players.rs", "src/ping.rs", "src/frags.rs", "src/flags.rs", "src/player.rs"],
     mech("ordered maps for everything that is listed", "src/players.rs, src/team.rs", "tie-break by name", "src/player.rs:sort"),
     rules=["determinism"], over=("inputs", "schedules"))

Prop("C05", "The library is a pure function of its argument",
     "No public function reads or writes files, environment, clock, network, standard streams or shared mutable state, starts threads, or keeps anything between calls. "
     "Calls from several threads can not influence each other, and all results are owned values that can be sent to another thread.",
     "all inputs, all interleavings of calls, all environments",
     "Effects and shared state show only under particular environments and interleavings.",
     ["src/lib.rs", "src/timezone.rs", "Cargo.toml"],
     mech("no statics with interior mutability, no unsafe", "src/", "owned result types", "src/client.rs, src/player.rs, src/team.rs, src/server.rs"),
     rules=["purity"], over=("inputs", "schedules", "histories", "configurations"))

Prop("C07", "Frames are walked contiguously, each exactly once",
     "Every function that scans the demo starts at its first byte, visits each frame at the offset where the previous one ended, and visits each frame at most once. "
     "It stops only at the first incomplete frame or at its own documented stopping point, so no complete frame before that point is skipped.",
     "all demos: every sequence of frame kinds, empty bodies included, and every point of truncation",
     "Skipping shows only for frames of the kind that takes the rare branch.",
     ["src/prints.rs", "src/frags.rs", "src/flags.rs", "src/ping.rs", "src/duration.rs", "src/qw/frame.rs"],
     mech("walk loop", "src/prints.rs, src/frags.rs, src/flags.rs, src/ping.rs, src/duration.rs:duration_until_offset"),
     entries=["prints", "frags_per_player_name", "flag_events_per_player_name", "ping_per_player_number", "demo_duration", "countdown_duration"])

Prop("C08", "A frame's extent follows from its header for every frame kind",
     "The low three bits of a frame's type byte decide its kind; a frame addressed to a set of players has four more header bytes, a frame with a message has a four-byte little-endian length, a sequence frame has eight bytes of body, and the others have none. "
     "The reported header and body are exactly those bytes of the demo and together make up the whole frame. "
     "A frame that does not fit completely into the remaining bytes is an error.",
     "all byte slices and all offsets into them; all 256 type bytes; all 2^32 lengths",
     "The parser's own tests read seven frames of one demo file.",
     ["src/qw/frame.rs", "src/qw/prot.rs"],
     mech("header decoding", "src/qw/frame.rs:Info::from_data_and_index", "kind tables", "src/qw/prot.rs"),
     entries=["frame_info", "target", "command"])

Prop("C09", "Messages are decoded with the wire format's layout and byte order",
     "A print is a level byte and text up to the first zero byte, a score update is a player byte and a little-endian short, a ping update is a player byte, a little-endian short and one following byte. "
     "A message cut off before its last byte is an error and never yields a shortened or padded value.",
     "all byte slices, every point of truncation, all values of every field",
     "Tests decode one well-formed example per message.",
     ["src/qw/message/print.rs", "src/qw/message/update_frags.rs", "src/qw/message/update_ping.rs", "src/qw/primitives.rs"],
     mech("primitive readers", "src/qw/primitives.rs", "message readers", "src/qw/message/"),
     entries=["print", "update_frags", "update_ping", "print_byte_size"])

Prop("C10", "Protocol codes map to the kinds the protocol assigns to them",
     "Every code of a frame target, frame command, message type, print level or hidden message maps to the kind the demo format assigns to it, and every unassigned code maps to the unknown or default kind. "
     "No two kinds share a code and no code is out of range.",
     "all 256 byte codes and all 65536 hidden message codes",
     "The tables are hardly touched by tests; each of the codes is its own case.",
     ["src/qw/prot.rs", "src/qw/message/message_type.rs"],
     mech("conversion tables", "src/qw/prot.rs"),
     entries=["target", "command", "print_id", "hidden_message", "message_type"])

Prop("C11", "Embedded match statistics are reassembled from all of their blocks",
     "The statistics text is the concatenation, in demo order, of the bodies of the consecutive statistics blocks that begin where the embedded document begins, up to and including the block numbered zero. "
     "Each block's length, kind and number are read from its header (little-endian, the length counting two header bytes); a truncated block or invalid text gives an error, and only text that parses as the statistics format gives statistics.",
     "all demos: any number of blocks, any block sizes, blocks of other kinds in between, any truncation",
     "The tests' demos hold a fixed small number of intact blocks, and most of those tests can not run.",
     ["src/ktxstats.rs", "src/qw/block.rs"],
     mech("block header", "src/qw/block.rs", "reassembly loop", "src/ktxstats.rs:ktxstats_string"),
     entries=["block_info", "ktxstats_string", "ktxstats_v3", "hidden_message"])

Prop("C12", "The print list holds exactly the demo's leading prints, in order",
     "The list of prints contains every non-empty print message that precedes the first message of another type in its frame, with its level and its exact bytes, in demo order. "
     "Runs of consecutive identical prints are listed once, and nothing else is added, dropped or reordered.",
     "all demos: all sequences of frames and messages, empty prints, repeated prints, truncated prints",
     "The existing test compares one demo file that is not available, and samples one sequence.",
     ["src/prints.rs", "src/qw/message/print.rs"],
     mech("message loop", "src/prints.rs:prints", "removal of duplicates", "src/prints.rs:prints"),
     entries=["prints"])

Prop("C13", "Server info is the quoted string of the header, decoded",
     "The server info string is the text between the opening quote of the full server info command within the first 1280 bytes and the next quote in that window, decoded to readable text; settings are parsed from exactly that string. "
     "If the command, its closing quote or its content is missing, an error is returned.",
     "all byte slices: any length, the command at any offset up to and across the end of the window",
     "Tests use demos whose header is complete and near the beginning.",
     ["src/serverinfo.rs", "src/bytesextra.rs"],
     mech("window and delimiters", "src/serverinfo.rs:serverinfo_string"),
     entries=["serverinfo_string", "serverinfo"])

Prop("C14", "Client info strings are found completely and in order",
     "The client info strings are all zero-terminated strings of 7 to 256 bytes holding a name key, found one after the other with gaps shorter than the search window, from the spawn command on and within the client section of the demo. "
     "Each is decoded to readable text once, keeps its order, and is parsed into one client info.",
     "all byte slices: any number, spacing and length of the strings, truncation anywhere",
     "Tests cover a few demos with ordinary players; gap and length limits are never reached.",
     ["src/clientinfo.rs", "src/bytesextra.rs"],
     mech("search loop", "src/clientinfo.rs:clientinfo_strings"),
     entries=["clientinfo_strings", "clientinfo"])

Prop("C15", "Every obituary wording is classified with the right roles",
     "Each known obituary wording yields the kind of event it means (frag, death, suicide, weapon suicide, team kill, team kill by an unnamed player) with killer and victim taken from the right sides of the wording, and longer wordings are recognised before their shorter parts. "
     "Text that matches no known wording yields no event.",
     "all strings: arbitrary player names around every wording, names that contain other wordings",
     "Tests try each wording once with plain names; the order in which wordings are tried matters only for unusual names.",
     ["src/qw/fragevent.rs"],
     mech("wording tables and their order", "src/qw/fragevent.rs"),
     entries=["frag_event"])

Prop("C16", "Scores are the sum of the obituaries' points",
     "A player's score is the sum over all leading medium-level prints of the demo: +1 for each frag as the killer, -1 for each death without a killer, each weapon suicide and each team kill, and -2 for each plain suicide. "
     "Each obituary counts once, for the one player it names as responsible, and prints of other levels or other texts count for nobody.",
     "all demos: all sequences of obituaries and other messages, all names",
     "The only test of the totals needs a demo file that is missing, and would sample a single game.",
     ["src/frags.rs", "src/qw/fragevent.rs"],
     mech("scan for obituaries", "src/frags.rs:frags_per_player_name", "points per event", "src/frags.rs:frags_per_player_name"),
     entries=["frags_per_player_name"])

Prop("C17", "An unnamed team killer is the teammate whose score changes next",
     "When an obituary does not name the team killer, the penalty goes to the first player, other than the victim, of the victim's team among those whose score update opens one of the three non-empty frames from the obituary on. "
     "If there is no such player, nobody is penalised.",
     "all demos: all positions of the score updates relative to the obituary, all team and name constellations",
     "Needs a rare event in a particular frame constellation; no running test covers it.",
     ["src/frags.rs", "src/clients.rs"],
     mech("look-ahead for score updates", "src/frags.rs:find_team_killer"),
     entries=["frags_per_player_name"])

Prop("C18", "Every flag message is classified and credited to its player",
     "Each known flag announcement, for either flag, yields the kind of action it announces and the player named before it; the wording against an aggressive enemy is not taken for the plain one. "
     "Any other text yields no flag action.",
     "all strings: arbitrary player names in front of every wording",
     "Tests try each wording once with one name.",
     ["src/qw/flagevent.rs"],
     mech("wording tables and their order", "src/qw/flagevent.rs"),
     entries=["flag_event"])

Prop("C19", "Flag counters count each announcement of the demo once",
     "The flag statistics count, per player name, every high-level announcement of each kind in its own counter, once each, over all frames. "
     "An announcement that is split over two consecutive prints is joined before it is classified, and a print that completes nothing is not joined.",
     "all demos: all sequences and splits of announcements, any number of them",
     "No running test covers the counters; splits and counts above 255 need long demos.",
     ["src/flags.rs", "src/qw/flagevent.rs"],
     mech("joining of split prints", "src/flags.rs:flag_events_per_player_name", "counters", "src/flags.rs:PlayerFlagEvents"),
     entries=["flag_events_per_player_name"])

Prop("C20", "A player's ping is the mean of the first samples",
     "The ping of a player number is the sum of its ping updates divided by their number, rounded towards zero, over the updates that open the first eight frames which carry any. "
     "A demo without ping updates gives an error, not zero pings.",
     "all demos: all sequences of ping updates, all values up to 65535, any number of players",
     "The test needs a missing demo file; large sums and the sample limit are never exercised.",
     ["src/ping.rs", "src/qw/message/update_ping.rs"],
     mech("sampling loop", "src/ping.rs:ping_per_player_number", "mean", "src/ping.rs:ping_per_player_number"),
     entries=["ping_per_player_number"])

Prop("C21", "Clients carry the right field values and their position as number",
     "Each client info becomes one client: name and team are its own (empty when absent), colours are its two colours clamped to 0..255, spectator and bot flags are set exactly when the respective value is present and not zero, and account and country are passed on. "
     "Clients are numbered 0, 1, 2, ... in the order in which they appear, without repetition.",
     "all client infos with any combination of present, absent, negative and large fields; any number of clients",
     "Tests convert a few ordinary records.",
     ["src/client.rs", "src/clients.rs"],
     mech("field mapping", "src/client.rs", "numbering", "src/clients.rs:clients"),
     entries=["client_from", "clients"])

Prop("C22", "Players and spectators partition the clients; name lists follow them",
     "Every client is listed either as a player or as a spectator, never both and never neither, in client order. "
     "Player names, spectator names and team names are exactly the names and teams of those lists, in the readable-text sort order, team names once each and taken from players only; the human and bot predicates are true exactly when such a player exists (or embedded statistics name a bot).",
     "all demos: all mixes of players, spectators, bots and teams",
     "Tests cover a few demos; most of those files are missing.",
     ["src/clients.rs"],
     mech("filters", "src/clients.rs:player_clients, spectator_clients", "sorting and de-duplication", "src/clients.rs:team_names"),
     entries=["player_clients", "spectator_clients", "has_human_players", "has_bot_players", "player_names", "spectator_names", "team_names"])

Prop("C23", "Parsed players join identity, score and ping of the same client",
     "Without embedded statistics the players are exactly the non-spectator clients; each gets the score recorded for its name and the ping recorded for its number, or zero when there is none, and keeps its own team, colours, bot flag and account. "
     "No player receives another client's score or ping.",
     "all demos: all client lists, all score and ping tables, gaps and missing entries",
     "The test needs a missing demo file; mismatches need spectators or missing entries in between.",
     ["src/players.rs", "src/clients.rs", "src/ping.rs", "src/frags.rs"],
     mech("join by name and number", "src/players.rs:players_from_parsing"),
     entries=["players_from_parsing"])

Prop("C24", "Embedded statistics take precedence and map field by field",
     "When the demo holds readable embedded statistics, the players are exactly the statistics' players with their name, team, colours, score, ping, account and bot status; otherwise the players come from parsing the demo. "
     "Negative pings become zero, colours are clamped to 0..255, an empty account is no account, and the two sources are never mixed.",
     "all demos with and without statistics; all field values of a statistics record",
     "The field conversion is tested on one record; the choice of the source on files that are missing.",
     ["src/players.rs", "src/player.rs"],
     mech("choice of the source", "src/players.rs:players", "field mapping", "src/player.rs"),
     entries=["player_from_ktx", "players_from_ktxstats", "players"])

Prop("C25", "Teams partition the players and add up exactly",
     "Every player belongs to exactly one team, the one with its team name, and every team has at least one player. "
     "A team's score is the sum of its players' scores, its ping the rounded mean of their pings, and its colour the one most of them wear, the earliest in case of a tie.",
     "all lists of players: any number of teams, ties between colours, extreme scores and pings",
     "Tests use two small teams without ties.",
     ["src/team.rs", "src/teams.rs"],
     mech("grouping", "src/team.rs:teams_from_players", "totals and colour", "src/team.rs:Team::from, majority_color"),
     entries=["team_from", "teams_from_players", "teams", "teams_from_ktxstats"])

Prop("C26", "Lists are in their documented, total and repeatable order",
     "Players are listed by descending score and, with equal scores, by ascending name, whichever source they come from; teams are listed by name without regard to case. "
     "The order does not depend on the order in the demo or on hashing.",
     "all lists of players and teams, in particular equal scores and names that differ only in case",
     "Ties are needed and the tests have none.",
     ["src/player.rs", "src/players.rs", "src/team.rs"],
     mech("comparison", "src/player.rs:sort", "team sort", "src/team.rs:teams_from_players"),
     entries=["players_from_ktxstats", "players_from_parsing", "teams_from_players"], rules=["determinism"], closure=False)

Prop("C27", "Time zones map to their offsets",
     "Every known time zone abbreviation yields its fixed offset from UTC, and a signed numeric offset of up to twelve hours, written with two or four digits with or without a colon, yields that same offset with its sign. "
     "Any other text, a number of other than two or four digits, and a larger number yield no offset.",
     "all strings; all 191 known abbreviations",
     "The test samples a handful of abbreviations and offsets.",
     ["src/timezone.rs"],
     mech("table", "src/timezone.rs", "numeric offsets", "src/timezone.rs:utc_offset"),
     entries=["utc_offset"])

Prop("C28", "The match date is the announced local time converted to UTC",
     "The match date is the date, time and zone of the demo's match date announcement, interpreted in that zone and converted to UTC. "
     "An announcement that is missing, unterminated, of unexpected length, not valid text, or has an unknown zone gives an error and never a shifted or default date.",
     "all demos: all announcement texts, all zones, multi-byte characters at any position",
     "Tests use a few well-formed announcements.",
     ["src/matchdate.rs", "src/timezone.rs"],
     mech("announcement window", "src/matchdate.rs:matchdate_string", "zone conversion", "src/matchdate.rs:matchdate"),
     entries=["matchdate_string", "matchdate"])

Prop("C29", "The timestamp prefers the server's epoch over the match date",
     "The timestamp is the epoch second of the server info, exactly, whenever the server info holds a representable one; only otherwise is it the match date. "
     "If neither is available an error is returned.",
     "all demos: every combination of present, absent and unrepresentable sources",
     "Two demos are sampled.",
     ["src/timestamp.rs", "src/serverinfo.rs", "src/matchdate.rs"],
     mech("order of the sources", "src/timestamp.rs:timestamp"),
     entries=["timestamp_from_epoch", "timestamp"])

Prop("C30", "Demo and countdown durations add up the frame times before the mark",
     "A duration read from the frames is the sum of the millisecond times of all frames that start before the mark, in seconds: for the whole demo the mark is the last announcement of the end of the match, else the last return to standby, else the end of the demo; for the countdown it is the match date announcement. "
     "A countdown without a mark is an error, and in hoonymode it is zero.",
     "all demos: all frame times, marks in any frame, several marks, none",
     "The tests need missing demo files.",
     ["src/duration.rs"],
     mech("summation", "src/duration.rs:duration_until_offset", "marks", "src/duration.rs:demo_duration, countdown_duration"),
     entries=["demo_duration", "countdown_duration"])

Prop("C31", "Match duration: recorded value first, else demo minus countdown",
     "The match duration is the duration recorded in the embedded statistics when it is present and valid and the mode is not hoonymode; otherwise it is the demo duration less the countdown duration. "
     "It is never negative, and an invalid recorded duration is not used.",
     "all demos: every combination of sources, every recorded number, countdown longer than the demo",
     "The tests need missing demo files and sample three modes.",
     ["src/duration.rs", "src/ktxstats.rs"],
     mech("choice of the source", "src/duration.rs:match_duration", "subtraction", "src/duration.rs:match_duration_from_seeking"),
     entries=["match_duration_from_seeking", "match_duration_from_ktxstats", "match_duration"])

Prop("C32", "A demo is valid only when all its essential parts are there",
     "A demo is reported as valid exactly when it has at least 1024 bytes, ends with the end-of-demo message, holds server info and holds at least one client. "
     "A demo lacking any one of these is not valid.",
     "all byte slices: every combination of present and missing parts, every length around the limit",
     "The test needs missing demo files and covers one failing combination.",
     ["src/validate.rs"],
     mech("conjunction", "src/validate.rs:is_valid"),
     entries=["has_end_of_demo_print", "has_clients", "is_valid"])

Prop("C33", "Aborted and paused demos are told apart from completed ones",
     "A demo counts as aborted exactly when it contains the print that the match was stopped by majority vote. "
     "It counts as paused exactly when it contains a pause announcement and does not end with the end-of-demo message.",
     "all byte slices, the marks at any position",
     "The tests need missing demo files.",
     ["src/aborted.rs", "src/paused.rs", "src/validate.rs"],
     mech("search for the marks", "src/aborted.rs, src/paused.rs"),
     entries=["is_aborted", "is_paused", "has_end_of_demo_print"])

Prop("C34", "Server record and file name are copied from their sources",
     "The server's host name, address and port are those of the embedded statistics, with the address written as ip:port, and the file name is the demo name of the server info. "
     "When the source is missing an error is returned.",
     "all demos; all field values",
     "One record is sampled.",
     ["src/server.rs", "src/filename.rs"],
     mech("field mapping", "src/server.rs", "demo name", "src/filename.rs"),
     entries=["server_from", "server", "filename"])

BY_ID = {p.id: p for p in PROPS}
