"""The pairs (function of the crate, reference function), with the functions that
both sides keep as calls.  `atomic` names are path suffixes of crate functions."""

FRAME = "frame::Info::from_data_and_index"
CLIENT = "<client::Client as std::convert::From<&quake_clientinfo::Clientinfo>>::from"
PLAYER = "<player::Player as std::convert::From<&ktxstats::v3::Player>>::from"
TEAM = "<team::Team as std::convert::From<&[player::Player]>>::from"
SERVER = "<server::Server as std::convert::From<&ktxstats::v3::KtxstatsV3>>::from"
FRAGEV = "<qw::fragevent::FragEvent as std::convert::TryFrom<&str>>::try_from"
FLAGEV = "<qw::flagevent::FlagEvent as std::convert::TryFrom<&str>>::try_from"
BLOCK = "<qw::block::Info as std::convert::TryFrom<&[u8]>>::try_from"
SINFO = "serverinfo::serverinfo"
KTX = "ktxstats::ktxstats_v3"


class Entry:
    def __init__(self, impl, spec, *atomic, **kw):
        self.impl, self.spec, self.atomic = impl, spec, atomic
        self.name = spec.split("::")[-1]
        self.opts = kw


ENTRIES = [
    # wire formats
    Entry("qw::frame::Info::from_data_and_index", "frames::frame_info"),
    Entry("<qw::message::print::Print as std::convert::TryFrom<&[u8]>>::try_from", "frames::print"),
    Entry("<qw::message::update_frags::UpdateFrags as std::convert::TryFrom<&[u8]>>::try_from", "frames::update_frags"),
    Entry("<qw::message::update_ping::UpdatePing as std::convert::TryFrom<&[u8]>>::try_from", "frames::update_ping"),
    Entry("qw::message::print::Print::byte_size", "frames::print_byte_size"),
    Entry("<qw::prot::Target as std::convert::From<&u8>>::from", "frames::target"),
    Entry("<qw::prot::Command as std::convert::From<&u8>>::from", "frames::command"),
    Entry("<qw::prot::PrintId as std::convert::From<&u8>>::from", "frames::print_id"),
    Entry("<qw::prot::HiddenMessage as std::convert::From<&u16>>::from", "frames::hidden_message"),
    Entry("<qw::prot::MessageType as std::convert::From<&u8>>::from", "frames::message_type"),
    # walkers
    Entry("prints::prints", "prints::prints", FRAME),
    Entry(FRAGEV, "frags::frag_event"),
    Entry("frags::frags_per_player_name", "frags::frags_per_player_name", FRAME, FRAGEV, "clients::clients"),
    Entry(FLAGEV, "flags::flag_event"),
    Entry("flags::flag_events_per_player_name", "flags::flag_events_per_player_name", FRAME, FLAGEV),
    Entry("ping::ping_per_player_number", "ping::ping_per_player_number", FRAME),
    # clients
    Entry("clientinfo::clientinfo_strings", "clients::clientinfo_strings"),
    Entry("clientinfo::clientinfo", "clients::clientinfo", "clientinfo::clientinfo_strings"),
    Entry(CLIENT, "clients::client_from"),
    Entry("clients::clients", "clients::clients", "clientinfo::clientinfo", CLIENT),
    Entry("clients::player_clients", "clients::player_clients", "clients::clients"),
    Entry("clients::spectator_clients", "clients::spectator_clients", "clients::clients"),
    Entry("clients::has_human_players", "clients::has_human_players", "clients::clients"),
    Entry("clients::has_bot_players", "clients::has_bot_players", "clients::clients"),
    Entry("clients::player_names", "clients::player_names", "clients::clients"),
    Entry("clients::spectator_names", "clients::spectator_names", "clients::clients"),
    Entry("clients::team_names", "clients::team_names", "clients::clients"),
    # players, teams
    Entry(PLAYER, "players::player_from_ktx"),
    Entry("players::players_from_ktxstats", "players::players_from_ktxstats", PLAYER),
    Entry("players::players_from_parsing", "players::players_from_parsing", "clients::clients",
          "ping::ping_per_player_number", "frags::frags_per_player_name"),
    Entry("players::players", "players::players", KTX, "players::players_from_ktxstats", "players::players_from_parsing"),
    Entry(TEAM, "players::team_from"),
    Entry("team::teams_from_players", "players::teams_from_players", TEAM),
    Entry("teams::teams", "players::teams", "players::players", "team::teams_from_players"),
    Entry("teams::teams_from_ktxstats", "players::teams_from_ktxstats", "players::players_from_ktxstats", "team::teams_from_players"),
    # embedded statistics, server info
    Entry(BLOCK, "stats::block_info"),
    Entry("ktxstats::ktxstats_string", "stats::ktxstats_string", BLOCK),
    Entry("ktxstats::ktxstats_v3", "stats::ktxstats_v3", "ktxstats::ktxstats_string"),
    Entry("serverinfo::serverinfo_string", "stats::serverinfo_string"),
    Entry("serverinfo::serverinfo", "stats::serverinfo", "serverinfo::serverinfo_string"),
    Entry(SERVER, "stats::server_from"),
    Entry("server::server", "stats::server", KTX, SERVER),
    Entry("filename::filename", "stats::filename", SINFO),
    Entry("aborted::is_aborted", "stats::is_aborted"),
    Entry("validate::has_end_of_demo_print", "stats::has_end_of_demo_print"),
    Entry("paused::is_paused", "stats::is_paused", "validate::has_end_of_demo_print"),
    Entry("validate::has_clients", "stats::has_clients", "clientinfo::clientinfo"),
    Entry("validate::is_valid", "stats::is_valid", "validate::has_end_of_demo_print", SINFO, "validate::has_clients"),
    # time
    Entry("timezone::utc_offset", "time::utc_offset"),
    Entry("matchdate::matchdate_string", "time::matchdate_string"),
    Entry("matchdate::matchdate", "time::matchdate", "matchdate::matchdate_string", "timezone::utc_offset"),
    Entry("timestamp::timestamp_from_epoch", "time::timestamp_from_epoch", SINFO),
    Entry("timestamp::timestamp", "time::timestamp", "timestamp::timestamp_from_epoch", "matchdate::matchdate"),
    Entry("duration::countdown_duration", "time::countdown_duration", FRAME, SINFO),
    Entry("duration::demo_duration", "time::demo_duration", FRAME),
    Entry("duration::match_duration_from_seeking", "time::match_duration_from_seeking",
          "duration::demo_duration", "duration::countdown_duration"),
    Entry("duration::match_duration_from_ktxstats", "time::match_duration_from_ktxstats", "ktxstats::ktxstats_string"),
    Entry("duration::match_duration", "time::match_duration", SINFO, "duration::match_duration_from_seeking",
          "duration::match_duration_from_ktxstats"),
]

BY_NAME = {e.name: e for e in ENTRIES}
assert len(BY_NAME) == len(ENTRIES)
