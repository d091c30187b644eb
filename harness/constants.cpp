// C41 named protocol constants and omitted arguments.
#include "mc.h"
#include <midi/capability_inquiry.h>
#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/manufacturer.h>
#include <midi/midi1_byte_stream.h>
#include <midi/midi1_channel_voice_message.h>
#include <midi/midi2_channel_voice_message.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/stream_message.h>
#include <midi/sysex.h>
#include <midi/system_message.h>
#include <midi/universal_packet.h>
#include <midi/universal_sysex.h>
#include <midi/utility_message.h>

using namespace mc;

struct Row { const char* name; u64 is, must; };
struct Text { const char* name; std::string is, must; };
#define K(n, v) { #n, static_cast<u64>(n), v }
#define S(n, v) { #n, std::string(n), v }
// values as assigned by the MIDI 1.0, UMP, MIDI 2.0 protocol, MIDI-CI and Property Exchange specifications and the
// manufacturer id list
static const Row rows[] = {
    K(midi::utility_status::noop, 0x00),
    K(midi::utility_status::jr_clock, 0x10),
    K(midi::utility_status::jr_timestamp, 0x20),
    K(midi::system_status::mtc_quarter_frame, 0xF1),
    K(midi::system_status::song_position, 0xF2),
    K(midi::system_status::song_select, 0xF3),
    K(midi::system_status::tune_request, 0xF6),
    K(midi::system_status::clock, 0xF8),
    K(midi::system_status::start, 0xFA),
    K(midi::system_status::cont, 0xFB),
    K(midi::system_status::stop, 0xFC),
    K(midi::system_status::active_sense, 0xFE),
    K(midi::system_status::reset, 0xFF),
    K(midi::midi1_channel_voice_status::note_off, 0x80),
    K(midi::midi1_channel_voice_status::note_on, 0x90),
    K(midi::midi1_channel_voice_status::poly_pressure, 0xA0),
    K(midi::midi1_channel_voice_status::control_change, 0xB0),
    K(midi::midi1_channel_voice_status::program_change, 0xC0),
    K(midi::midi1_channel_voice_status::channel_pressure, 0xD0),
    K(midi::midi1_channel_voice_status::pitch_bend, 0xE0),
    K(midi::data_status::sysex7_complete, 0x00),
    K(midi::data_status::sysex7_start, 0x10),
    K(midi::data_status::sysex7_continue, 0x20),
    K(midi::data_status::sysex7_end, 0x30),
    K(midi::channel_voice_status::registered_per_note_controller, 0x00),
    K(midi::channel_voice_status::assignable_per_note_controller, 0x10),
    K(midi::channel_voice_status::registered_controller, 0x20),
    K(midi::channel_voice_status::assignable_controller, 0x30),
    K(midi::channel_voice_status::relative_registered_controller, 0x40),
    K(midi::channel_voice_status::relative_assignable_controller, 0x50),
    K(midi::channel_voice_status::per_note_pitch_bend, 0x60),
    K(midi::channel_voice_status::note_off, 0x80),
    K(midi::channel_voice_status::note_on, 0x90),
    K(midi::channel_voice_status::poly_pressure, 0xA0),
    K(midi::channel_voice_status::control_change, 0xB0),
    K(midi::channel_voice_status::program_change, 0xC0),
    K(midi::channel_voice_status::channel_pressure, 0xD0),
    K(midi::channel_voice_status::pitch_bend, 0xE0),
    K(midi::channel_voice_status::per_note_management, 0xF0),
    K(midi::extended_data_status::sysex8_complete, 0x00),
    K(midi::extended_data_status::sysex8_start, 0x10),
    K(midi::extended_data_status::sysex8_continue, 0x20),
    K(midi::extended_data_status::sysex8_end, 0x30),
    K(midi::extended_data_status::mixed_data_set_header, 0x80),
    K(midi::extended_data_status::mixed_data_set_payload, 0x90),
    K(midi::protocol::midi1, 0x1),
    K(midi::protocol::midi2, 0x2),
    K(midi::extensions::jitter_reduction_transmit, 0x1),
    K(midi::extensions::jitter_reduction_receive, 0x2),
    K(midi::stream_status::endpoint_discovery, 0x00),
    K(midi::stream_status::endpoint_info, 0x01),
    K(midi::stream_status::device_identity, 0x02),
    K(midi::stream_status::endpoint_name, 0x03),
    K(midi::stream_status::product_instance_id, 0x04),
    K(midi::stream_status::stream_configuration_request, 0x05),
    K(midi::stream_status::stream_configuration_notify, 0x06),
    K(midi::stream_status::function_block_discovery, 0x10),
    K(midi::stream_status::function_block_info, 0x11),
    K(midi::stream_status::function_block_name, 0x12),
    K(midi::control_change::bank_select_msb, 0),
    K(midi::control_change::modulation_wheel, 1),
    K(midi::control_change::breath_controller, 2),
    K(midi::control_change::foot_controller, 4),
    K(midi::control_change::portamento_time, 5),
    K(midi::control_change::data_entry_msb, 6),
    K(midi::control_change::volume, 7),
    K(midi::control_change::balance, 8),
    K(midi::control_change::pan, 10),
    K(midi::control_change::expression_controller, 11),
    K(midi::control_change::effect_control_1, 12),
    K(midi::control_change::effect_control_2, 13),
    K(midi::control_change::general_purpose_1, 16),
    K(midi::control_change::general_purpose_2, 17),
    K(midi::control_change::general_purpose_3, 18),
    K(midi::control_change::general_purpose_4, 19),
    K(midi::control_change::bank_select, 32),
    K(midi::control_change::bank_select_lsb, 32),
    K(midi::control_change::lsb, 32),
    K(midi::control_change::data_entry_lsb, 38),
    K(midi::control_change::damper_pedal, 64),
    K(midi::control_change::sustain, 64),
    K(midi::control_change::portamento_on_off, 65),
    K(midi::control_change::sustenuto, 66),
    K(midi::control_change::soft_pedal, 67),
    K(midi::control_change::legato_footswitch, 68),
    K(midi::control_change::hold_2, 69),
    K(midi::control_change::sound_controller_1, 70),
    K(midi::control_change::sound_variation, 70),
    K(midi::control_change::sound_controller_2, 71),
    K(midi::control_change::timbre, 71),
    K(midi::control_change::harmonic_intensity, 71),
    K(midi::control_change::sound_controller_3, 72),
    K(midi::control_change::release_time, 72),
    K(midi::control_change::sound_controller_4, 73),
    K(midi::control_change::attack_time, 73),
    K(midi::control_change::sound_controller_5, 74),
    K(midi::control_change::brightness, 74),
    K(midi::control_change::sound_controller_6, 75),
    K(midi::control_change::decay_time, 75),
    K(midi::control_change::sound_controller_7, 76),
    K(midi::control_change::vibrato_rate, 76),
    K(midi::control_change::sound_controller_8, 77),
    K(midi::control_change::vibrato_depth, 77),
    K(midi::control_change::sound_controller_9, 78),
    K(midi::control_change::vibrato_delay, 78),
    K(midi::control_change::sound_controller_10, 79),
    K(midi::control_change::general_purpose_5, 80),
    K(midi::control_change::general_purpose_6, 81),
    K(midi::control_change::general_purpose_7, 82),
    K(midi::control_change::general_purpose_8, 83),
    K(midi::control_change::portamento_control, 84),
    K(midi::control_change::hi_res_velocity_prefix, 88),
    K(midi::control_change::effects_1_depth, 91),
    K(midi::control_change::reverb_send_level, 91),
    K(midi::control_change::effects_2_depth, 92),
    K(midi::control_change::effects_3_depth, 93),
    K(midi::control_change::chorus_send_level, 93),
    K(midi::control_change::effects_4_depth, 94),
    K(midi::control_change::effects_5_depth, 95),
    K(midi::control_change::data_increment, 96),
    K(midi::control_change::data_decrement, 97),
    K(midi::control_change::nrpn_lsb, 98),
    K(midi::control_change::nrpn_msb, 99),
    K(midi::control_change::rpn_lsb, 100),
    K(midi::control_change::rpn_msb, 101),
    K(midi::control_change::all_sound_off, 120),
    K(midi::control_change::reset_all_controllers, 121),
    K(midi::control_change::local_control, 122),
    K(midi::control_change::all_notes_off, 123),
    K(midi::control_change::omni_mode_off, 124),
    K(midi::control_change::omni_mode_on, 125),
    K(midi::control_change::mono_mode_on, 126),
    K(midi::control_change::poly_mode_off, 126),
    K(midi::control_change::mono_mode_off, 127),
    K(midi::control_change::poly_mode_on, 127),
    K(midi::registered_parameter_number::pitch_bend_sensitivity, 0),
    K(midi::registered_parameter_number::fine_tuning, 1),
    K(midi::registered_parameter_number::coarse_tuning, 2),
    K(midi::registered_parameter_number::tuning_program_select, 3),
    K(midi::registered_parameter_number::tuning_bank_select, 4),
    K(midi::registered_parameter_number::per_note_pitch_bend_sensitivity, 7),
    K(midi::registered_per_note_controller::modulation, 1),
    K(midi::registered_per_note_controller::breath, 2),
    K(midi::registered_per_note_controller::pitch_7_25, 3),
    K(midi::registered_per_note_controller::volume, 7),
    K(midi::registered_per_note_controller::balance, 8),
    K(midi::registered_per_note_controller::pan, 10),
    K(midi::registered_per_note_controller::expression, 11),
    K(midi::registered_per_note_controller::sound_controller_1, 70),
    K(midi::registered_per_note_controller::sound_variation, 70),
    K(midi::registered_per_note_controller::sound_controller_2, 71),
    K(midi::registered_per_note_controller::timbre, 71),
    K(midi::registered_per_note_controller::harmonic_intensity, 71),
    K(midi::registered_per_note_controller::sound_controller_3, 72),
    K(midi::registered_per_note_controller::release_time, 72),
    K(midi::registered_per_note_controller::sound_controller_4, 73),
    K(midi::registered_per_note_controller::attack_time, 73),
    K(midi::registered_per_note_controller::sound_controller_5, 74),
    K(midi::registered_per_note_controller::brightness, 74),
    K(midi::registered_per_note_controller::sound_controller_6, 75),
    K(midi::registered_per_note_controller::decay_time, 75),
    K(midi::registered_per_note_controller::sound_controller_7, 76),
    K(midi::registered_per_note_controller::vibrato_rate, 76),
    K(midi::registered_per_note_controller::sound_controller_8, 77),
    K(midi::registered_per_note_controller::vibrato_depth, 77),
    K(midi::registered_per_note_controller::sound_controller_9, 78),
    K(midi::registered_per_note_controller::vibrato_delay, 78),
    K(midi::registered_per_note_controller::sound_controller_10, 79),
    K(midi::registered_per_note_controller::effects_1_depth, 91),
    K(midi::registered_per_note_controller::reverb_send_level, 91),
    K(midi::registered_per_note_controller::effects_2_depth, 92),
    K(midi::registered_per_note_controller::effects_3_depth, 93),
    K(midi::registered_per_note_controller::chorus_send_level, 93),
    K(midi::registered_per_note_controller::effects_4_depth, 94),
    K(midi::registered_per_note_controller::effects_5_depth, 95),
    K(midi::universal_sysex::type::sample_dump_header, 0x7E01),
    K(midi::universal_sysex::type::sample_data_packet, 0x7E02),
    K(midi::universal_sysex::type::sample_dump_request, 0x7E03),
    K(midi::universal_sysex::type::midi_time_code_non_real_time, 0x7E04),
    K(midi::universal_sysex::type::sample_dump_extensions, 0x7E05),
    K(midi::universal_sysex::type::general_information, 0x7E06),
    K(midi::universal_sysex::type::file_dump, 0x7E07),
    K(midi::universal_sysex::type::midi_tuning_non_real_time, 0x7E08),
    K(midi::universal_sysex::type::general_midi, 0x7E09),
    K(midi::universal_sysex::type::downloadable_sounds, 0x7E0A),
    K(midi::universal_sysex::type::file_reference_message, 0x7E0B),
    K(midi::universal_sysex::type::midi_visual_control, 0x7E0C),
    K(midi::universal_sysex::type::capability_inquiry, 0x7E0D),
    K(midi::universal_sysex::type::end_of_file, 0x7E7B),
    K(midi::universal_sysex::type::wait, 0x7E7C),
    K(midi::universal_sysex::type::cancel, 0x7E7D),
    K(midi::universal_sysex::type::nak, 0x7E7E),
    K(midi::universal_sysex::type::ack, 0x7E7F),
    K(midi::universal_sysex::type::midi_time_code_real_time, 0x7F01),
    K(midi::universal_sysex::type::midi_show_control, 0x7F02),
    K(midi::universal_sysex::type::notation_information, 0x7F03),
    K(midi::universal_sysex::type::device_control, 0x7F04),
    K(midi::universal_sysex::type::real_time_mtc_cueing, 0x7F05),
    K(midi::universal_sysex::type::midi_machine_control_commands, 0x7F06),
    K(midi::universal_sysex::type::midi_machine_control_responses, 0x7F07),
    K(midi::universal_sysex::type::midi_tuning_real_time, 0x7F08),
    K(midi::universal_sysex::type::controller_destination_setting, 0x7F09),
    K(midi::universal_sysex::type::none, 0x0000),
    K(midi::universal_sysex::subtype::identity_request, 0x01),
    K(midi::universal_sysex::subtype::identity_reply, 0x02),
    K(midi::universal_sysex::subtype::gm_1_system_on, 0x01),
    K(midi::universal_sysex::subtype::gm_system_off, 0x02),
    K(midi::universal_sysex::subtype::gm_2_system_on, 0x03),
    K(midi::universal_sysex::subtype::mtc_full_message, 0x01),
    K(midi::universal_sysex::subtype::mtc_user_bits, 0x02),
    K(midi::manufacturer::sequential_circuits, 0x010000),
    K(midi::manufacturer::moog, 0x040000),
    K(midi::manufacturer::lexicon, 0x060000),
    K(midi::manufacturer::kurzweil, 0x070000),
    K(midi::manufacturer::fender, 0x080000),
    K(midi::manufacturer::oberheim, 0x100000),
    K(midi::manufacturer::midi9, 0x090000),
    K(midi::manufacturer::simmons, 0x120000),
    K(midi::manufacturer::digidesign, 0x130000),
    K(midi::manufacturer::fairlight, 0x140000),
    K(midi::manufacturer::emu, 0x180000),
    K(midi::manufacturer::hohner, 0x240000),
    K(midi::manufacturer::ppg, 0x290000),
    K(midi::manufacturer::wersi, 0x3B0000),
    K(midi::manufacturer::waldorf, 0x3E0000),
    K(midi::manufacturer::kawai, 0x400000),
    K(midi::manufacturer::roland, 0x410000),
    K(midi::manufacturer::korg, 0x420000),
    K(midi::manufacturer::yamaha, 0x430000),
    K(midi::manufacturer::casio, 0x440000),
    K(midi::manufacturer::akai, 0x450000),
    K(midi::manufacturer::fujitsu, 0x4B0000),
    K(midi::manufacturer::sony, 0x4C0000),
    K(midi::manufacturer::teac, 0x4E0000),
    K(midi::manufacturer::fostex, 0x510000),
    K(midi::manufacturer::zoom, 0x520000),
    K(midi::manufacturer::suzuki, 0x550000),
    K(midi::manufacturer::educational, 0x7D0000),
    K(midi::manufacturer::universal_non_realtime, 0x7E0000),
    K(midi::manufacturer::universal_realtime, 0x7F0000),
    K(midi::manufacturer::rane, 0x000017),
    K(midi::manufacturer::allen_heath, 0x00001A),
    K(midi::manufacturer::motu, 0x00003B),
    K(midi::manufacturer::atari, 0x000058),
    K(midi::manufacturer::mackie, 0x000066),
    K(midi::manufacturer::amd, 0x00006F),
    K(midi::manufacturer::m_audio, 0x000105),
    K(midi::manufacturer::microsoft, 0x00010A),
    K(midi::manufacturer::line6, 0x00010C),
    K(midi::manufacturer::cakewalk, 0x000121),
    K(midi::manufacturer::numark, 0x00013F),
    K(midi::manufacturer::denon, 0x00020B),
    K(midi::manufacturer::google, 0x00020D),
    K(midi::manufacturer::imitone, 0x000213),
    K(midi::manufacturer::universal_audio, 0x000218),
    K(midi::manufacturer::sensel, 0x00021D),
    K(midi::manufacturer::mk2_image, 0x000222),
    K(midi::manufacturer::bon_tempi, 0x00200B),
    K(midi::manufacturer::fatar, 0x00201A),
    K(midi::manufacturer::pinnacle, 0x00201E),
    K(midi::manufacturer::tc_electronics, 0x00201F),
    K(midi::manufacturer::doepfer, 0x002020),
    K(midi::manufacturer::focusrite, 0x002029),
    K(midi::manufacturer::novation, 0x002029),
    K(midi::manufacturer::emagic, 0x002031),
    K(midi::manufacturer::behringer, 0x002032),
    K(midi::manufacturer::access, 0x002033),
    K(midi::manufacturer::terratec, 0x002036),
    K(midi::manufacturer::propellerhead, 0x00203A),
    K(midi::manufacturer::klavis, 0x002047),
    K(midi::manufacturer::vermona, 0x00204D),
    K(midi::manufacturer::nokia, 0x00204E),
    K(midi::manufacturer::hartmann, 0x002050),
    K(midi::manufacturer::waves, 0x002066),
    K(midi::manufacturer::arturia, 0x00206B),
    K(midi::manufacturer::hanpin, 0x002079),
    K(midi::manufacturer::serato, 0x00207F),
    K(midi::manufacturer::presonus, 0x002103),
    K(midi::manufacturer::native_instruments, 0x002109),
    K(midi::manufacturer::ploytec, 0x00210D),
    K(midi::manufacturer::roli, 0x002110),
    K(midi::manufacturer::ik_multimedia, 0x00211A),
    K(midi::manufacturer::ableton, 0x00211D),
    K(midi::manufacturer::bome, 0x002132),
    K(midi::manufacturer::touchkeys, 0x002136),
    K(midi::ci::message_version_1, 0x01),
    K(midi::ci::message_version_2, 0x02),
    K(midi::ci::version, 0x02),
    K(midi::ci::broadcast_muid, 0x0FFFFFFF),
    K(midi::ci::category::profile_configuration, (1 << 2)),
    K(midi::ci::category::property_exchange, (1 << 3)),
    K(midi::ci::category::process_inquiry, (1 << 4)),
    K(midi::ci::subtype::discovery_inquiry, 0x70),
    K(midi::ci::subtype::discovery_reply, 0x71),
    K(midi::ci::subtype::endpoint_information_inquiry, 0x72),
    K(midi::ci::subtype::endpoint_information_reply, 0x73),
    K(midi::ci::subtype::ack, 0x7D),
    K(midi::ci::subtype::invalidate_muid, 0x7E),
    K(midi::ci::subtype::nak, 0x7F),
    K(midi::ci::subtype::profile_inquiry, 0x20),
    K(midi::ci::subtype::profile_inquiry_reply, 0x21),
    K(midi::ci::subtype::set_profile_on, 0x22),
    K(midi::ci::subtype::set_profile_off, 0x23),
    K(midi::ci::subtype::profile_enabled, 0x24),
    K(midi::ci::subtype::profile_disabled, 0x25),
    K(midi::ci::subtype::profile_added, 0x26),
    K(midi::ci::subtype::profile_removed, 0x27),
    K(midi::ci::subtype::profile_details_inquiry, 0x28),
    K(midi::ci::subtype::profile_details_reply, 0x29),
    K(midi::ci::subtype::profile_specific_data, 0x2F),
    K(midi::ci::subtype::property_exchange_capabilities_inquiry, 0x30),
    K(midi::ci::subtype::property_exchange_capabilities_reply, 0x31),
    K(midi::ci::subtype::_pe_reserved_1_, 0x32),
    K(midi::ci::subtype::_pe_reserved_2_, 0x33),
    K(midi::ci::subtype::get_property_data_inquiry, 0x34),
    K(midi::ci::subtype::get_property_data_reply, 0x35),
    K(midi::ci::subtype::set_property_data_inquiry, 0x36),
    K(midi::ci::subtype::set_property_data_reply, 0x37),
    K(midi::ci::subtype::subscription_inquiry, 0x38),
    K(midi::ci::subtype::subscription_reply, 0x39),
    K(midi::ci::subtype::notify, 0x3F),
    K(midi::ci::property_exchange::version_major, 0x00),
    K(midi::ci::property_exchange::version_minor, 0x00),
    K(midi::ci::subtype::process_inquiry_capabilities_inquiry, 0x40),
    K(midi::ci::subtype::process_inquiry_capabilities_reply, 0x41),
    K(midi::ci::subtype::midi_message_report_inquiry, 0x42),
    K(midi::ci::subtype::midi_message_report_reply, 0x43),
    K(midi::ci::subtype::midi_message_report_end, 0x44),
    K(midi::discovery_filter::endpoint_info, 0b00001),
    K(midi::discovery_filter::device_identity, 0b00010),
    K(midi::discovery_filter::endpoint_name, 0b00100),
    K(midi::discovery_filter::product_instance_id, 0b01000),
    K(midi::discovery_filter::stream_configuration, 0b10000),
    K(midi::discovery_filter::endpoint_all, 0b11111),
    K(midi::discovery_filter::function_block_info, 0b01),
    K(midi::discovery_filter::function_block_name, 0b10),
    K(midi::discovery_filter::function_block_all, 0b11),
    K(midi::note_management::reset, 0x1),
    K(midi::note_management::detach, 0x2),
    K(midi::note_management::detach_and_reset, 0x3),
    K(midi::function_block_options::direction_input, 0b01),
    K(midi::function_block_options::direction_output, 0b10),
    K(midi::function_block_options::bidirectional, 0b11),
    K(midi::function_block_options::not_midi1, 0),
    K(midi::function_block_options::midi1_unrestricted, 1),
    K(midi::function_block_options::midi1_31250, 2),
    K(midi::function_block_options::ui_hint_as_direction, 0),
    K(midi::function_block_options::ui_hint_receiver, 1),
    K(midi::function_block_options::ui_hint_sender, 2),
    K(midi::sysex7::uint7_max, 0x7F),
    K(midi::sysex7::uint14_max, 0x3FFF),
    K(midi::sysex7::uint28_max, 0xFFFFFFF),
    K(midi::jr_clock_frequency, 31250),
    K(midi::note_attribute::none, 0x0),
    K(midi::note_attribute::manufacturer_specific, 0x1),
    K(midi::note_attribute::profile_specific, 0x2),
    K(midi::note_attribute::pitch_7_9, 0x3),
    K(midi::packet_type::utility, 0),
    K(midi::packet_type::system, 1),
    K(midi::packet_type::midi1_channel_voice, 2),
    K(midi::packet_type::data, 3),
    K(midi::packet_type::midi2_channel_voice, 4),
    K(midi::packet_type::extended_data, 5),
    K(midi::packet_format::complete, 0),
    K(midi::packet_format::start, 1),
    K(midi::packet_format::cont, 2),
    K(midi::packet_format::end, 3),
    K(midi::packet_address::channel, 0),
    K(midi::packet_address::group, 1),
    K(midi::packet_type::flex_data, 0xD),
    K(midi::packet_type::stream, 0xF),
    K(midi::ci::profile_destination::group, 0x7E),
    K(midi::ci::profile_destination::function_block, 0x7F),
};
static const Text texts[] = {
    S(midi::ci::property_exchange::tags::resource, "resource"),
    S(midi::ci::property_exchange::tags::command, "command"),
    S(midi::ci::property_exchange::tags::status, "status"),
    S(midi::ci::property_exchange::tags::id, "id"),
    S(midi::ci::property_exchange::tags::offset, "offset"),
    S(midi::ci::property_exchange::tags::limit, "limit"),
    S(midi::ci::property_exchange::tags::encoding, "encoding"),
    S(midi::ci::property_exchange::tags::message, "message"),
    S(midi::ci::property_exchange::tags::subscribeId, "subscribeId"),
    S(midi::ci::property_exchange::ResourceList, "ResourceList"),
    S(midi::ci::property_exchange::DeviceInfo, "DeviceInfo"),
    S(midi::ci::property_exchange::ChannelList, "ChannelList"),
    S(midi::ci::property_exchange::JSONSchema, "JSONSchema"),
    S(midi::ci::property_exchange::ModeList, "ModeList"),
    S(midi::ci::property_exchange::CurrentMode, "CurrentMode"),
    S(midi::ci::property_exchange::ProgramList, "ProgramList"),
    S(midi::ci::property_exchange::ClockMode, "ClockMode"),
    S(midi::ci::property_exchange::LocalOn, "LocalOn"),
    S(midi::ci::property_exchange::ChannelMode, "ChannelMode"),
    S(midi::ci::property_exchange::BasicChannelRx, "BasicChannelRx"),
    S(midi::ci::property_exchange::BasicChannelTx, "BasicChannelTx"),
    S(midi::ci::property_exchange::MaxSysex8Streams, "MaxSysex8Streams"),
    S(midi::ci::property_exchange::StateList, "StateList"),
    S(midi::ci::property_exchange::State, "State"),
    S(midi::ci::property_exchange::AllCtrlList, "AllCtrlList"),
    S(midi::ci::property_exchange::ChCtrlList, "ChCtrlList"),
    S(midi::ci::property_exchange::CtrlMapList, "CtrlMapList"),
};

MC_SECTION("C41", c41_constants);
void c41_constants::run(Ctx& c, Args a)
{
    c.nontrivial();
    const std::size_t n = std::size(rows);
    if (a[0] < n) MC_CHECK(c, rows[a[0]].is == rows[a[0]].must, "%s is 0x%llx, must be 0x%llx", rows[a[0]].name, (unsigned long long)rows[a[0]].is, (unsigned long long)rows[a[0]].must);
    else MC_CHECK(c, texts[a[0] - n].is == texts[a[0] - n].must, "%s is \"%s\"", texts[a[0] - n].name, texts[a[0] - n].is.c_str());
    c.outcome(a[0]);
    if (a[0] < n && c.want_sample()) c.sample(fmt("%s = 0x%llx", rows[a[0]].name, (unsigned long long)rows[a[0]].is));
}
void c41_constants::enumerate(Ctx& c)
{
    c.bound(fmt("all %zu named numbers and %zu named texts", std::size(rows), std::size(texts)));
    for (u64 i = 0; i < std::size(rows) + std::size(texts); ++i) if (c.mine()) c.exec<c41_constants>(i);
}

//---------------------------------------------------------------------------------------------------------------------
// omitted arguments of packet builders: case = group, channel, v
MC_SECTION("C41", c41_packet_defaults);
void c41_packet_defaults::run(Ctx& c, Args a)
{
    using namespace midi;
    c.nontrivial();
    const group_t   g  = group_t(a[0]);
    const channel_t ch = channel_t(a[1]);
    const uint7_t   v  = uint7_t(a[2]);
    const u32       v2 = v, h = u32(g) << 24;
    auto is = [&](const char* what, const universal_packet& p, u32 w0, u32 w1 = 0, u32 w2 = 0, u32 w3 = 0) {
        MC_CHECK(c, p.data[0] == w0 && p.data[1] == w1 && p.data[2] == w2 && p.data[3] == w3, "%s: %08x %08x %08x %08x, expected %08x %08x %08x %08x", what, p.data[0], p.data[1], p.data[2], p.data[3], w0, w1, w2, w3);
    };
    for (u32 s = 0x80; s < 0xF0; s += 0x10)
    {
        is("midi1 message, no data", midi1_channel_voice_message{ g, status_t(s | ch) }, 0x20000000u | h | (s | ch) << 16);
        is("midi1 message, one data byte", midi1_channel_voice_message{ g, status_t(s | ch), v }, 0x20000000u | h | (s | ch) << 16 | v2 << 8);
        is("midi1 builder, one data byte", make_midi1_channel_voice_message(g, status_t(s), ch, v), 0x20000000u | h | (s | ch) << 16 | v2 << 8);
    }
    for (u32 s : { 0xF1, 0xF2, 0xF3, 0xF6, 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF })
    {
        is("system message, no data", system_message{ g, status_t(s) }, 0x10000000u | h | s << 16);
        is("system message, one data byte", system_message{ g, status_t(s), v }, 0x10000000u | h | s << 16 | v2 << 8);
        is("system builder, no data", make_system_message(g, status_t(s)), 0x10000000u | h | s << 16);
        is("system builder, one data byte", make_system_message(g, status_t(s), v), 0x10000000u | h | s << 16 | v2 << 8);
    }
    is("midi2 note off, no attribute", make_midi2_note_off_message(g, ch, v, velocity{ uint16_t(0x1234) }), 0x40800000u | h | u32(ch) << 16 | v2 << 8, 0x12340000u);
    is("midi2 note off, no attribute data", make_midi2_note_off_message(g, ch, v, velocity{ uint16_t(0x1234) }, 9), 0x40800009u | h | u32(ch) << 16 | v2 << 8, 0x12340000u);
    is("midi1 note off, default velocity", make_midi1_note_off_message(g, ch, v, {}), 0x20800040u | h | u32(ch) << 16 | v2 << 8);
    is("utility, no payload", utility_message{ status_t(v & 0x70) }, (v2 & 0x70) << 16);
    is("flex, nothing", flex_data_message{}, 0xD0000000u);
    is("flex, group", flex_data_message{ g }, 0xD0000000u | h);
    for (u32 f = 0; f < 4; ++f)
        for (u32 ad = 0; ad < (ch ? 1u : 2u); ++ad)
        {
            const u32 w = 0xD0000000u | h | f << 22 | ad << 20 | u32(ch) << 16 | v2 << 8 | (v2 ^ 0x55);
            const auto F = packet_format(f); const auto A = packet_address(ad);
            const auto b = status_t(v), s = status_t(v ^ 0x55);
            is("flex, no data", flex_data_message{ g, F, A, ch, b, s }, w);
            is("flex, one word", flex_data_message{ g, F, A, ch, b, s, 0x11111111u }, w, 0x11111111u);
            is("flex, two words", flex_data_message{ g, F, A, ch, b, s, 0x11111111u, 0x22222222u }, w, 0x11111111u, 0x22222222u);
            is("flex builder, no data", make_flex_data_message(g, F, A, ch, b, s), w);
            is("flex builder, one word", make_flex_data_message(g, F, A, ch, b, s, 0x11111111u), w, 0x11111111u);
            is("flex builder, two words", make_flex_data_message(g, F, A, ch, b, s, 0x11111111u, 0x22222222u), w, 0x11111111u, 0x22222222u);
        }
    if (!g && !ch)
    {
        is("sysex7 complete", make_sysex7_complete_packet(), 0x30000000u);
        is("sysex7 start", make_sysex7_start_packet(), 0x30100000u);
        is("sysex7 continue", make_sysex7_continue_packet(), 0x30200000u);
        is("sysex7 end", make_sysex7_end_packet(), 0x30300000u);
        is("sysex8 complete", make_sysex8_complete_packet(v), 0x50010000u | v2 << 8);
        is("sysex8 start", make_sysex8_start_packet(v), 0x50110000u | v2 << 8);
        is("sysex8 continue", make_sysex8_continue_packet(v), 0x50210000u | v2 << 8);
        is("sysex8 end", make_sysex8_end_packet(v), 0x50310000u | v2 << 8);
        is("stream message", stream_message{ v }, 0xF0000000u | v2 << 16);
        is("endpoint discovery", make_endpoint_discovery_message(v & 0x1F), 0xF0000101u, v2 & 0x1F);
        is("endpoint discovery, major only", make_endpoint_discovery_message(v & 0x1F, 7), 0xF0000701u, v2 & 0x1F);
        for (u32 v2 = 1; v2 < 3; ++v2) is("stream configuration request", make_stream_configuration_request(protocol_t(v2)), 0xF0050000u | v2 << 8);
        for (u32 v2 = 1; v2 < 3; ++v2) is("stream configuration notification", make_stream_configuration_notification(protocol_t(v2)), 0xF0060000u | v2 << 8);
        for (u32 pr = 0; pr < 4; ++pr)
            for (u32 ex = 0; ex < 4; ++ex)
            {
                is("endpoint info", make_endpoint_info_message(v, true, uint8_t(pr), uint8_t(ex)), 0xF0010101u, 0x80000000u | v2 << 24 | pr << 8 | ex);
                is("endpoint info, major only", make_endpoint_info_message(v, false, uint8_t(pr), uint8_t(ex), 7), 0xF0010701u, v2 << 24 | pr << 8 | ex);
            }
    }
    if (!ch)
    {
        for (u32 d = 1; d < 4; ++d) // direction
            is("function block info", make_function_block_info_message(v & 31, uint2_t(d), g), make_function_block_info_message(v & 31, uint2_t(d), g, 1).data[0], u32(g) << 24 | 1u << 16);
        for (u32 d = 1; d < 4; ++d)
        {
            function_block_options o{};
            o.direction = uint2_t(d);
            const auto x = make_function_block_info_message(v & 31, o, g), y = make_function_block_info_message(v & 31, o, g, 1);
            is("function block info with options", x, y.data[0], y.data[1], y.data[2], y.data[3]);
        }
        sysex7 s7{ 0x410000 }; s7.data = { v, 1, 2, 3, 4, 5, 6 };
        const auto p7 = as_sysex7_packets(s7), q7 = as_sysex7_packets(s7, 0);
        MC_CHECK(c, p7.size() == q7.size(), "number of SysEx7 packets");
        for (std::size_t i = 0; i < p7.size(); ++i) MC_CHECK(c, p7[i] == q7[i] && p7[i].group() == 0, "SysEx7 packets without group");
        sysex8 s8{ 0x410000 }; s8.data.assign(20, v);
        const auto p8 = as_sysex8_packets(s8, v), q8 = as_sysex8_packets(s8, v, 0);
        MC_CHECK(c, p8.size() == q8.size(), "number of SysEx8 packets");
        for (std::size_t i = 0; i < p8.size(); ++i) MC_CHECK(c, p8[i] == q8[i] && p8[i].group() == 0, "SysEx8 packets without group");
        // a parser made without sysex callback or switch reports at once, on group 0
        std::vector<universal_packet> got;
        midi1_byte_stream_parser a1([&](universal_packet p) { got.push_back(p); }), a2(g, [&](universal_packet p) { got.push_back(p); });
        const uint8_t bytes[] = { 0x93, v, 0x40, 0xF0, 0x7D, v, 0xF7 };
        for (auto b : bytes) a1.feed(b);
        for (auto b : bytes) a2.feed(b);
        MC_CHECK(c, got.size() == 4 && got[0].data[0] == (0x20930040u | v2 << 8) && got[1].data[0] == (0x30027D00u | v2) && got[2].data[0] == (0x20930040u | h | v2 << 8) && got[3].data[0] == (0x30027D00u | h | v2), "parser with omitted arguments");
    }
    c.outcome(mix(mix(g, ch), v));
}
void c41_packet_defaults::enumerate(Ctx& c)
{
    c.bound("every packet builder with each number of trailing arguments omitted x 16 groups x 16 channels x 128 values");
    for (u64 g = 0; g < 16; ++g)
        for (u64 ch = 0; ch < 16; ++ch)
            if (c.mine())
                for (u64 v = 0; v < 128; ++v) c.exec<c41_packet_defaults>(g, ch, v);
}

//---------------------------------------------------------------------------------------------------------------------
// omitted arguments of MIDI-CI and universal SysEx builders: case = source, destination, request id
MC_SECTION("C41", c41_sysex_defaults);
void c41_sysex_defaults::run(Ctx& c, Args a)
{
    using namespace midi;
    using namespace midi::ci;
    namespace pe = midi::ci::property_exchange;
    c.nontrivial();
    const muid_t  s = muid_t(a[0]), d = muid_t(a[1]);
    const uint7_t r = uint7_t(a[2]);
    auto same = [&](const char* what, const ci::message& x, const ci::message& y) {
        MC_CHECK(c, x == y, "%s with omitted arguments: data of %zu bytes, expected %zu", what, x.data.size(), y.data.size());
        c.outcome(mix(x.data.size(), x.data[2]));
    };
    identity_t id{};
    id.manufacturer = 0x410000; id.family = 0x1234; id.model = 0x2345; id.revision = 0x1234567;
    same("message", ci::message(r, s, d), ci::message(r, s, d, 0x7F));
    same("message with payload size", ci::message::make_with_payload_size(3, r, s, d), ci::message::make_with_payload_size(3, r, s, d, 0x7F));
    same("discovery", make_discovery_inquiry(s, id, r, 512), make_discovery_inquiry(s, id, r, 512, 0));
    same("discovery reply", make_discovery_reply(s, d, id, 28, 512, r), make_discovery_reply(s, d, id, 28, 512, r, 0x7F));
    same("profile inquiry", make_profile_inquiry_message(s, d), make_profile_inquiry_message(s, d, 0x7F));
    const profile_id pid{ r, 2, 3, 4, 5 };
    const std::vector<profile_id> on{ pid }, off{ pid, pid };
    same("profile inquiry reply", make_profile_inquiry_reply(s, d, on.data(), 1, off.data(), 2), make_profile_inquiry_reply(s, d, on.data(), 1, off.data(), 2, 0x7F));
    same("profile inquiry reply (vectors)", make_profile_inquiry_reply(s, d, on, off), make_profile_inquiry_reply(s, d, on, off, 0x7F));
    same("profile added", make_profile_added_notification(s, d, pid), make_profile_added_notification(s, d, pid, 0x7F));
    same("profile removed", make_profile_removed_notification(s, d, pid), make_profile_removed_notification(s, d, pid, 0x7F));
    same("profile details inquiry", make_profile_details_inquiry(s, d, pid, r), make_profile_details_inquiry(s, d, pid, r, 0x7F));
    const uint7_t bytes[] = { 1, 2, r };
    same("profile details reply", make_profile_details_reply(s, d, pid, r, bytes, 3), make_profile_details_reply(s, d, pid, r, bytes, 3, 0x7F));
    same("profile specific data", make_profile_specific_data_message(s, d, pid, bytes, 3), make_profile_specific_data_message(s, d, pid, bytes, 3, 0x7F));
    const std::vector<uint7_t> vec{ 1, r };
    same("profile specific data (vector)", make_profile_specific_data_message(s, d, pid, vec), make_profile_specific_data_message(s, d, pid, vec, 0x7F));
    MC_CHECK(c, channel_profile(r).scope == r && channel_profile(r).num_channels == 1, "channel_profile");
    MC_CHECK(c, profile_destination{}.scope == 0x7F && profile_destination{}.num_channels == 0, "default profile destination");
    MC_CHECK(c, group_profile.scope == 0x7E && group_profile.num_channels == 0 && function_block_profile.scope == 0x7F && function_block_profile.num_channels == 0, "group_profile, function_block_profile");
    same("pe capabilities", make_property_exchange_capabilities_inquiry(s, d), make_property_exchange_capabilities_inquiry(s, d, 1, 0x7F));
    same("pe capabilities, n", make_property_exchange_capabilities_inquiry(s, d, r), make_property_exchange_capabilities_inquiry(s, d, r, 0x7F));
    same("pe capabilities reply", make_property_exchange_capabilities_reply(s, d), make_property_exchange_capabilities_reply(s, d, 1, 0x7F));
    same("pe capabilities reply, n", make_property_exchange_capabilities_reply(s, d, r), make_property_exchange_capabilities_reply(s, d, r, 0x7F));
    const pe::header_options opt{ { "a", "b" } };
    const pe::chunk ck{ std::string_view("xyz") };
    const pe::header hd{ std::string_view("{}") };
#define TWO(what, f, ...) same(what, f(__VA_ARGS__), f(__VA_ARGS__, 0, 0x7F)); same(what ", request id", f(__VA_ARGS__, r), f(__VA_ARGS__, r, 0x7F))
    TWO("get", make_get_property_data_inquiry, s, d, "res");
    TWO("get with options", make_get_property_data_inquiry, s, d, "res", opt);
    TWO("get reply (header)", make_get_property_data_reply, s, d, hd, 2, 1, ck);
    TWO("get reply (status)", make_get_property_data_reply, s, d, 200, 2, 1, ck);
    TWO("get reply (message)", make_get_property_data_reply, s, d, 200, "m", 2, 1, ck);
    TWO("get reply (chunk)", make_get_property_data_reply, s, d, uint14_t(3), uint14_t(2), ck);
    TWO("set", make_set_property_data_inquiry, s, d, "res", 2, 1, ck);
    TWO("set with options", make_set_property_data_inquiry, s, d, "res", opt, 2, 1, ck);
    TWO("set (chunk)", make_set_property_data_inquiry, s, d, uint14_t(3), uint14_t(2), ck);
    TWO("set reply", make_set_property_data_reply, s, d, 200);
    TWO("set reply (message)", make_set_property_data_reply, s, d, 200, "m");
    TWO("subscription", make_subscription_inquiry, s, d, "res", "start", "id");
    TWO("subscription (chunk 1)", make_subscription_inquiry, s, d, "res", "start", "id", 2, 1, ck);
    TWO("subscription (chunk)", make_subscription_inquiry, s, d, uint14_t(3), uint14_t(2), ck);
    TWO("subscription reply", make_subscription_reply, s, d, 200);
    TWO("subscription reply (message)", make_subscription_reply, s, d, 200, "m");
    TWO("notify", make_notify_message, s, d, 200);
    TWO("notify (message)", make_notify_message, s, d, 200, "m");
    TWO("property data", pe::make_property_data_message, 0x34, s, d, hd, 2, 1, ck);
#undef TWO
    same("process inquiry", make_process_inquiry_capabilities_inquiry(s, d), make_process_inquiry_capabilities_inquiry(s, d, 0x7F));
    same("process inquiry reply", make_process_inquiry_capabilities_reply(s, d, r), make_process_inquiry_capabilities_reply(s, d, r, 0x7F));
    same("message report", make_midi_message_report_inquiry(s, d, 1, 2, 3, r), make_midi_message_report_inquiry(s, d, 1, 2, 3, r, 0x7F));
    same("message report reply", make_midi_message_report_reply(s, 1, 2, r), make_midi_message_report_reply(s, 1, 2, r, 0x7F));
    same("message report end", make_midi_message_report_end(s), make_midi_message_report_end(s, 0x7F));
    MC_CHECK(c, universal_sysex::make_identity_request() == universal_sysex::make_identity_request(0x7F) && universal_sysex::identity_request{} == universal_sysex::identity_request{ 0x7F }, "identity request with omitted device id");
    MC_CHECK(c, universal_sysex::make_identity_reply(0x410000, 1, 2, r) == universal_sysex::make_identity_reply(0x410000, 1, 2, r, 0x7F), "identity reply with omitted device id");
}
void c41_sysex_defaults::enumerate(Ctx& c)
{
    c.bound("every MIDI-CI and universal SysEx builder with each number of trailing arguments omitted, compared with the explicit defaults, x 5 x 5 muids x 128 request ids / bytes");
    for (u64 s : { 0ull, 1ull, 0x0FFFFFFFull, 0x1234567ull, 0x0ABCDEFull })
        for (u64 d : { 0ull, 1ull, 0x0FFFFFFFull, 0x7654321ull, 0x0FEDCBAull })
            if (c.mine())
                for (u64 r = 0; r < 128; ++r) c.exec<c41_sysex_defaults>(s, d, r);
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
