#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

G='c/gnss_converters/src/'
X='c/gnss_converters_extra/src/'
prop('C01','RTCM to SBP output does not depend on how the byte stream is delivered',
 "For one and the same RTCM byte stream, rtcm3tosbp emits the same sequence of SBP messages (type, sender and content) no matter how the reads split it: one byte at a time, in arbitrary short reads, or in the largest blocks the converter asks for. A frame is converted as soon as the read that completes it returns (the converter needs no later bytes to release it, unless unrelated bytes in front of it look like a longer frame still being received), and a read error or end of stream neither removes nor alters what was already converted.",
 ['inputs','schedules','fault_sequences'],"all RTCM3 byte streams and all sequences of read sizes, with read errors or EOF at any point",
 "Existing tests replay a few recordings with one fixed read size and none of them build in this sandbox; partial frames across read boundaries and buffer-limit alignments are a schedule dimension they never vary.",
 [G+'rtcm3_sbp.c','c/rtcm3tosbp/src/rtcm3tosbp.c'],[('FIFO plus scan loop over preamble, length, CRC',G+'rtcm3_sbp.c rtcm2sbp_process')],['bytes given to the write callback of rtcm3tosbp_main','SBP callback of rtcm2sbp_process'])
prop('C02','RTCM corruption is contained and the decoder resynchronises',
 "Bytes that are not part of a frame with preamble, valid length (1..1023) and matching CRC-24Q never produce or alter any SBP message: garbage between frames, corrupted, truncated, duplicated-in-part or spliced frames behave exactly as if they were absent. Every intact frame that does not overlap an earlier intact frame is converted exactly once and in order, including one that starts inside the damaged bytes of another (only when the stream ends while bytes that look like the start of a longer frame are waiting may the frames behind them be lost).",
 ['inputs','fault_sequences'],"all interleavings of intact frames with garbage, bit flips, truncations, insertions, partial repeats and fake preambles",
 "Tests use clean recordings; the property quantifies over every corruption pattern and its position relative to frame boundaries and the read buffer.",
 [G+'rtcm3_sbp.c'],[('preamble scan, 10-bit length, CRC-24Q check, one-byte skip on failure',G+'rtcm3_sbp.c rtcm2sbp_process')],['write callback of rtcm3tosbp_main'])
prop('C03','RTCM observation epochs become complete, consistent SBP observation sequences',
 "Each SBP observation sequence carries observations of exactly one station and one epoch time, at most 15 messages of at most 14 observations numbered 0..total-1 in order with the same total, sender (station id with the high bits 0xF080 set) and time in each; every valid, supported observation in the RTCM observation messages of that epoch that arrived intact appears exactly once with its satellite, signal, pseudorange, carrier phase, Doppler, C/N0, lock time and flags, and nothing else appears (an epoch without any usable observation whose last MSM message arrives shows as one empty observation message). An MSM epoch (GPS, GLONASS, Galileo, BeiDou; MSM4-7) is sent when its last message (multiple message bit 0) arrives, a legacy epoch (1002/1004/1010/1012) when a message without the synchronous flag arrives, and in either case when a message of another epoch or station arrives first, so the loss, duplication or reordering of frames never mixes epochs or stations and never drops or repeats other frames' observations (a repeated or older legacy message of the same constellation is ignored).",
 ['histories','fault_sequences','inputs'],"all sequences of MSM4-7 and legacy observation messages of several stations and epochs, with frames lost, duplicated, reordered or delayed",
 "Unit tests convert a few hand-made epochs in order; epoch assembly is a state machine whose behaviour depends on the whole arrival history.",
 [G+'rtcm3_sbp.c','c/librtcm/src/decode.c','c/librtcm/src/msm_utils.c',G+'rtcm3_utils.c'],[('observation buffer with flush on time/sender change and on last-message bits',G+'rtcm3_sbp.c add_msm_obs_to_buffer/add_obs_to_buffer/send_observations')],['SBP observation messages emitted'])
prop('C04','RTCM observation times are gated on and resolved against known GPS time',
 "Until the converter knows GPS time it emits no observations, GLONASS/QZSS ephemerides, biases or SSR corrections; from then on every observation sequence carries the GPS week and time of week of the true epoch, provided the reference time is within half a week of it (half a day, and GLONASS within 30 s of known time after removing the leap seconds), across week and day rollovers, with BeiDou time shifted by 14 s and GLONASS time by 3 h and the leap seconds in force. Time becomes known from command line options or from converted ephemerides of healthy GPS satellites (GPS, Galileo and BeiDou ephemerides are themselves converted before that, with the week they carry), and with the option to take time from observations it follows the observations (a time of week of 0 is not adopted); messages whose time field is out of range are dropped.",
 ['histories','inputs','configurations'],"all orders of arrival of time sources and observations, initial clock errors, week/day rollovers and leap second offsets",
 "Existing time tests pick a few instants; the guarantee ranges over every clock error and every arrival order around rollovers.",
 [G+'rtcm3_sbp.c',G+'time_truth.c','c/rtcm3tosbp/src/rtcm3tosbp.c'],[('time truth gate, week resolution to nearest half week, GLO day resolution',G+'rtcm3_sbp.c rtcm2sbp_decode_payload/compute_gps_message_time/compute_glo_time')],['times in SBP observation messages'])
prop('C05','MSM takes precedence over legacy observations, 1230 over 1033',
 "Legacy observation messages (1002/1004/1010/1012) are discarded when their time is less than 5 s after the last accepted MSM observation message, and used otherwise; the first MSM message after an MSM-free period discards legacy observations still waiting to be sent. GLONASS biases derived from a 1033 receiver description are emitted only if no 1230 bias message was converted during the last 120 s of known time, while 1230 biases are always emitted.",
 ['histories','schedules'],"all interleavings over time of MSM and legacy observation streams and of 1230 and 1033 messages, including stream loss and recovery",
 "The rule depends on elapsed (simulated) time and history between two message families; tests try one or two instants.",
 [G+'rtcm3_sbp.c'],[('MSM_TIMEOUT_SEC, MSG_1230_TIMEOUT_SEC',G+'rtcm3_sbp.c is_msm_active/no_1230_received')],['SBP observation and GLONASS bias messages emitted'])
prop('C06','SSR orbit and clock corrections are paired only within one epoch and issue',
 "Separate SSR orbit and clock messages produce a combined SBP orbit/clock correction only when an orbit and a clock message of the same constellation, epoch time and IOD SSR are the latest two of that constellation, in either order and each used at most once; the result has one correction per satellite present in both, with the orbit fields from the orbit message and the clock fields from the clock message of that very satellite. Combined orbit/clock, code bias and phase bias messages convert one to one, and loss, duplication or reordering of frames or interleaving of constellations never combines data of different epochs, issues, constellations or satellites.",
 ['histories','fault_sequences'],"all sequences of SSR messages over constellations, epochs and IODs with loss, duplication and reordering",
 "Tests convert single fixed pairs; the cache is a state machine over message history.",
 [G+'rtcm3_sbp.c',G+'rtcm3_sbp_ssr.c','c/librtcm/src/ssr_decode.c'],[('per-constellation one-message cache',G+'rtcm3_sbp.c case 1057../1058..')],['SBP SSR messages emitted'],
 [dict(name='orbit_clock_cache',meaning='the unpaired orbit or clock message per constellation',where='rtcm3_sbp_state')])
prop('C07','RTCM ephemerides and station messages convert one to one with their own data',
 "Each intact RTCM ephemeris (1019, 1020, 1042, 1044, 1045, 1046), station position (1005, 1006), text (1029) and Swift-wrapped (4062) message yields exactly one SBP message (texts longer than an SBP log message are cut at a character boundary) whose satellite, times and parameters are those of that message only, independent of which other messages came before, between or after (an ephemeris whose issue data are inconsistent or whose satellite number is invalid yields none). Each SBAS frame in a navigation data message (4075) yields one raw SBAS message with its satellite, time and data. The GLONASS frequency used for carrier phase and Doppler of a satellite is that of the latest 1020 received for it (or of the observation itself when it carries one), and phase and Doppler are marked invalid while it is unknown.",
 ['histories','fault_sequences'],"all interleavings of ephemerides, station, text and observation messages over satellites, with loss and duplication",
 "Conversion uses per-converter caches; tests cover single messages, not histories mixing satellites and issues.",
 [G+'rtcm3_sbp.c',G+'rtcm3_sbp_ephemeris.c','c/librtcm/src/eph_decode.c','c/librtcm/src/sta_decode.c'],[('per-message conversion, GLONASS FCN map',G+'rtcm3_sbp_ephemeris.c')],['SBP ephemeris, base position, log messages'])
prop('C08','The shared time estimate is linearizable, consistent and never goes backwards',
 "When several threads update and read one time truth object concurrently, every read returns a (state, time) pair that some single accepted update wrote (never a mix of two updates), the time never decreases and the state never returns from solved to unknown between reads ordered in real time (times are kept at the resolution of their 32-bit float representation), and an update that finished before a read began is reflected in it whenever it was newer than everything before it. Invalid times and times before the reference week are never adopted, and every operation completes in a bounded number of its own steps once other threads stop.",
 ['schedules','histories'],"all interleavings of concurrent update/get operations and all sequences of candidate times",
 "Tests are single threaded; the code is a lock-free read-modify-write loop whose correctness is about interleavings.",
 [G+'time_truth.c','c/gnss_converters/include/gnss-converters/time_truth.h'],[('atomic load and compare-exchange retry loop',G+'time_truth.c time_truth_update')],['time_truth_get results'])
prop('C09','UBX to SBP output does not depend on delivery and contains corruption',
 "For one UBX byte stream, ubx2sbp emits the same SBP messages however reads split it; bytes outside frames with the UBX sync characters and a matching Fletcher checksum (garbage, corrupted, truncated or spliced frames) never produce or alter output, and every intact frame that begins after the damaged bytes have been consumed is converted exactly once, in order (a damaged frame consumes the length it claims, up to 4090 bytes of payload; a header claiming more consumes only itself). A read error or end of stream ends the conversion without altering what was already emitted.",
 ['inputs','schedules','fault_sequences'],"all byte streams, read splits, corruptions, read errors and EOF positions",
 "Recordings in the tests are clean and read in one way.",
 [G+'ubx_sbp.c','c/libubx/src/decode.c'],[('sync search, length, Fletcher-8 checksum',G+'ubx_sbp.c fetch_ubx')],['write callback of ubx2sbp'])
prop('C10','UBX navigation epochs and observations are converted faithfully',
 "Each RXM-RAWX message becomes one complete SBP observation sequence (numbered packets, same time and sender) with each measurement's satellite, signal, pseudorange, phase, Doppler, C/N0, lock time and validity as measured, and an out-of-range or invalid value marked invalid rather than replaced by other data; each NAV-PVT, HNR-PVT, NAV-ATT, NAV-VELECEF, NAV-SAT and MON-HW message and each SBAS message in RXM-SFRBX becomes the corresponding SBP message carrying its own values and time (HNR-PVT, NAV-ATT and NAV-VELECEF take the fix status and satellite count of the latest NAV-PVT; SBAS messages are timed by the latest time of week seen). Loss, duplication or reordering of other messages changes none of this.",
 ['histories','inputs','fault_sequences'],"all UBX message histories under loss, duplication and reordering",
 "Tests compare a few recordings; conversion keeps state between messages.",
 [G+'ubx_sbp.c','c/libubx/src/decode.c'],[('per-message handlers',G+'ubx_sbp.c')],['SBP messages emitted'])
prop('C11','UBX ephemerides are assembled only from parts of one and the same issue',
 "An ephemeris is emitted only after all its parts (GPS subframes 1-3, Galileo I/NAV words 1-4 and the latest word 5, which names no issue, BeiDou D1 subframes 1-3, GLONASS strings 1-5 while the leap seconds are known) have been received from that one satellite, and it equals the ephemeris that satellite broadcast under that one issue; parts of different issues, satellites or superframes are never combined, whatever subframes are lost, repeated, reordered or interleaved between satellites. When all parts of an issue arrive in order without interruption, exactly one ephemeris for it is emitted.",
 ['histories','fault_sequences'],"all sequences of subframes/pages/strings over satellites and issues with loss, duplication and reordering",
 "Tests feed one clean recording; mixing of issues needs particular losses around an upload.",
 [G+'ubx_ephemeris/gps.c',G+'ubx_ephemeris/gal.c',G+'ubx_ephemeris/bds.c',G+'ubx_ephemeris/glo.c',G+'ubx_sbp.c'],[('per-satellite subframe store with issue and timing checks',G+'ubx_ephemeris/')],['SBP ephemeris messages emitted'])
prop('C12','UBX inertial and wheel data carry the right time across gaps and counter wraps',
 "Each IMU, odometry and wheel tick message carries the time of its own measurement on the sensor clock (modulo a week; the IMU with its documented 0.05 s delay removed), also when the millisecond and time tag counters of the receiver wrap around; the message that ties the sensor clock to GPS time gives the difference of the two for one instant, across wraps and week rollovers; after a gap of more than 1 s the first sensor message is dropped and later ones again carry true times; wheel tick counts advance per wheel by what the wheel did, across the wrap of the received counter; one SBP IMU message is sent per complete set of three gyro and three accelerometer samples, never mixing samples of different times.",
 ['histories','schedules','fault_sequences'],"all ESF-MEAS/ESF-RAW/NAV-STATUS histories with clock offsets, wraps, gaps, loss and duplication",
 "Depends on elapsed sensor time and history; tests have one recording.",
 [G+'ubx_sbp.c'],[('ESF state machine',G+'ubx_sbp.c handle_esf_raw/handle_esf_meas')],['SBP IMU, odometry messages emitted'])
prop('C13','iXCOM to SBP conversion is delivery independent and contains corruption',
 "For one iXCOM byte stream, ixcom2sbp emits the same SBP messages however reads split it; frames failing their CRC or with inconsistent length never produce output, and after garbage, corruption or truncation every later intact frame is converted once, in order, with IMU rates, accelerations, wheel speed and times as in the frame and one auxiliary IMU message with the first IMU message and every 100th after it (a header claiming an impossible length consumes only itself, any other damaged frame the length it claims). No header value makes the converter abort, read past its buffers or stop before the end of the stream.",
 ['inputs','schedules','fault_sequences'],"all byte streams, read splits, corruptions and EOF positions",
 "Tests convert one recording.",
 [G+'ixcom_sbp.c','c/libixcom/src/decode.c','c/ixcom2sbp/src/ixcom2sbp.c'],[('sync, header, length, CRC16',G+'ixcom_sbp.c')],['write callback of ixcom2sbp'])
prop('C14','NovAtel parsing does not depend on delivery and contains corruption',
 "For one NovAtel byte stream the parser reports the same messages, in order, however reads split it, including reads shorter than a message; only messages with a valid CRC-32 (up to 4096 bytes with header and CRC) are reported, garbage and corrupted messages are skipped without losing later intact ones (a damaged message consumes one byte, then the search resumes), and at end of stream every complete message already read has been reported. No input, including messages of unexpected length, aborts the parser or makes it read outside the message.",
 ['inputs','schedules','fault_sequences'],"all byte streams, read splits, corruptions, message lengths and EOF positions",
 "The two existing unit tests cover bit reading only; the parser test data is missing.",
 ['c/nov2sbp/parser/parser.cc','c/nov2sbp/parser/crc_checker.cc','c/nov2sbp/parser/binary_header.cc'],[('sync bytes, header, CRC-32 over fixed buffer','c/nov2sbp/parser/parser.cc Parser::process')],['parser callbacks; write callback of nov2sbp'])
prop('C15','NovAtel messages become SBP messages with the right content and time',
 "Every valid NovAtel observation, position, velocity, attitude, ephemeris and IMU message becomes the corresponding SBP messages carrying the values and the GPS time of that message; velocity carries the status of the position of the same time, GPS time is announced once per new time, observations are split into complete numbered sequences (of the first 63 channels; measurements of unsupported signals or that do not fit the SBP fields are left out), IMU rates and accelerations use the interval since the previous IMU message of the same or the following week (the nominal interval otherwise; a message with its error or encryption flag set gives no rates), and the IMU auxiliary message is sent at most once per second of message time but never withheld for longer, across GPS week rollovers and whatever messages are lost, repeated or reordered.",
 ['histories','fault_sequences'],"all histories of NovAtel messages with loss, duplication, reordering and week rollover",
 "Not covered by any test that builds; depends on state between messages.",
 ['c/nov2sbp/src/nov2sbp.cc','c/nov2sbp/src/swiftnav_conversion_helpers.cc','c/nov2sbp/src/send_sbp_obs_messages.cc'],[('per-message handlers with state','c/nov2sbp/src/nov2sbp.cc')],['write callback of nov2sbp'])
prop('C16','SBP to RTCM emits only whole valid frames with consistent epochs',
 "Whatever SBP messages arrive, lost, repeated or reordered, every byte the SBP to RTCM converter writes belongs to a well-formed RTCM frame (preamble, length, CRC-24Q). The observations of one RTCM epoch (MSM4, MSM5 or legacy messages) all come from one SBP observation sequence of one sender and time: a sequence is written when its last packet arrives, or what was received of it when a packet of a newer epoch or of another sender shows that it will not complete, with the multiple-message (or synchronous) flag set on all but the last message of the epoch; a packet that repeats or precedes what was received ends the sequence and is itself left out. Observations lacking a valid code measurement, excluded by RAIM or of signals the message type has no field for are left out; every other received one appears exactly once with its pseudorange, phase, Doppler, lock time and C/N0 to the resolution of the RTCM fields (a value outside its field is marked invalid; a constellation with more than 64 satellite-signal cells loses whole cells). Ephemerides, base positions, GLONASS biases, log texts and the SBP messages wrapped for transport give one frame each with their own values.",
 ['histories','fault_sequences','inputs'],"all SBP message histories under loss, duplication and reordering, MSM4, MSM5 and legacy modes",
 "Tests convert complete in-order epochs.",
 [X+'sbp_rtcm3.c',X+'sbp_conv.c','c/sbp2rtcm/src/sbp2rtcm.c','c/librtcm/src/encode.c'],[('epoch buffer keyed by sender, time and sequence numbers',X+'sbp_rtcm3.c sbp2rtcm_sbp_obs_cb')],['RTCM bytes written'])
prop('C17','SBP to RTCM to SBP round trip preserves the corrections stream',
 "A stream of SBP observations, ephemerides, base positions, GLONASS biases, log texts and wrapped SBP messages converted to RTCM (MSM4 or MSM5) and back over a lossless link yields the same observation epochs, ephemerides, positions, biases and texts up to the resolution of the RTCM fields; over a link that loses, duplicates, delays or damages RTCM frames every observation that comes back is one that was sent, in its own epoch, every other message that comes back is one that was sent, and once the faults stop every later epoch (with GPS observations and all packets of its sequence; not one at time of week 0 before the time is known) again comes back complete and once.",
 ['histories','fault_sequences'],"all SBP streams and link fault sequences between two converters",
 "A two-party end-to-end property under link faults; tests only check single conversions.",
 [X+'sbp_rtcm3.c',X+'sbp_rtcm3_ephemeris.c',G+'rtcm3_sbp.c','c/librtcm/src'],[('encoder and decoder pair','c/librtcm/src')],['SBP in vs SBP out of the two-converter system'])
prop('C18','The in-memory SBP to RTCM converter keeps its data intact between calls',
 "The sequence of all bytes returned by the buffered SBP to RTCM conversion interface is the same RTCM stream as that produced by feeding the same messages to the streaming converter, for every size of output buffer and every number of read calls per message: each call returns all that is waiting and fits, nothing is lost, repeated, reordered or torn, as long as at most 8192 bytes wait; beyond that only whole frames are dropped. Instances do not affect each other, and when memory for a converter cannot be allocated creation returns NULL without side effects.",
 ['schedules','histories','fault_sequences'],"all call sequences, buffer sizes, instance interleavings and allocation failures",
 "No test drives partial reads or allocation failure.",
 [X+'sbp_conv.c'],[('FIFO between callback and caller',X+'sbp_conv.c')],['return values and bytes of sbp_conv'])
prop('C19','NMEA sentences describe one epoch and are well formed',
 "Every line sbp2nmea emits is a well-formed NMEA sentence (start character, printable fields, correct checksum, CRLF) whose time, position, velocity, quality, heading and DOP values are those of the messages of the one epoch whose UTC time it belongs to: a sentence is emitted as soon as, and only when, every message it is made of has arrived for that epoch (for the fused solution also the end of the message group), never from a mix of two epochs however messages are lost, repeated, delayed or reordered, and never twice in a row for one epoch. GSA lists the satellites of a complete observation set that is not older than the epoch; GSV lists every satellite of the latest azimuth/elevation message. A converter set up for the GNSS (fused) solution uses the GNSS (fused) messages only; in best mode it uses the fused solution once there is one. If nothing is lost each epoch yields every enabled sentence that is due.",
 ['histories','fault_sequences'],"all SBP solution message histories under loss, duplication, delay and reordering, in GNSS, fused and best modes",
 "Tests replay one recording; epoch coherence is about message arrival histories.",
 [G+'sbp_nmea.c',G+'nmea.c'],[('per-sentence required message masks and time match',G+'sbp_nmea.c nmea_ready')],['NMEA lines given to the callback'])
prop('C20','NMEA sentence rates are honoured over time',
 "With a configured solution frequency (any, also one whose period is no whole number of milliseconds) and per-sentence rates, a sentence with rate 0 is never emitted and one with rate N is emitted, when what it needs is there, at exactly those epochs whose number, counted in solution periods from the start of the GPS week, is a multiple of N; epochs up to less than half a period late count as the one they are late for. This holds through lost epochs, clock jumps and week rollover.",
 ['histories','configurations'],"all rate settings and epoch time histories",
 "Depends on the time history; tests use one setting.",
 [G+'nmea.c',G+'sbp_nmea.c'],[('rate check on time of week',G+'nmea.c check_nmea_rate')],['NMEA lines given to the callback'])
prop('C21','No input or fault makes a converter crash, hang or put out garbage',
 "For any byte sequence on its input (also well-formed frames with any contents under valid checksums), delivered by any sequence of reads including read errors and end of file anywhere, with writes failing or not, each converter (rtcm3tosbp, ubx2sbp, ixcom2sbp, nov2sbp, sbp2rtcm as tools and as libraries, and sbp2nmea with any message contents) comes to an end once the input does, without crash, assertion failure, out-of-bounds memory access, division by zero or null access, and without reading again and again after the end or writing without bound; and everything it writes is whole messages of its output format with valid length and checksum.",
 ['inputs','schedules','fault_sequences'],"all inputs (recordings and generated traffic mutated arbitrarily, with valid checksums recomputed) and fault sequences",
 "Fuzz corpora exist but no test asserts it, and faults in delivery are never injected.",
 ['c/gnss_converters/src','c/gnss_converters_extra/src','c/librtcm/src','c/libubx/src','c/libixcom/src','c/nov2sbp','c/sbp2rtcm/src/sbp2rtcm.c'],[('length and range checks before use','all decoders'),('loops end at end of input','*_process, *_main')],['exit status under sanitizers, output bytes'])
prop('C22','Output is a function of the input alone and converters are independent',
 "The output of a converter depends only on its own options and input: not on what memory held before it was initialised or on memory nothing was written to, not on an earlier (finished or abandoned) conversion in the same process by a freshly initialised converter, and not on another converter of the same or another kind being driven in between; running a tool again gives the same bytes.",
 ['schedules','histories'],"all interleavings of the reads and writes of two or more library converters (rtcm, ubx, ixcom, sbp2rtcm, sbp2nmea), all initial memory contents, all sequences of conversions; the tools' mains, nov2sbp among them, once per process",
 "Tests run a single zero-initialised instance.",
 [G+'rtcm3_sbp.c','c/librtcm/src/logging.c',G+'ubx_sbp.c',G+'ixcom_sbp.c',X+'sbp_rtcm3.c',G+'sbp_nmea.c'],[('init functions set all state','*_init'),('no state outside the converter','all converters')],['bytes written per instance','uninitialised reads'])
prop('C23','A failing or short write never tears, repeats or reorders the output',
 "When the output sink of a tool (rtcm3tosbp, ubx2sbp, ixcom2sbp, nov2sbp, sbp2rtcm) refuses a write or accepts only part of it at any point, for good or only once, everything converted before that point has been written, what the sink accepted in all is a prefix of the fault-free output stream, and the tool ends with a failure status instead of going on or crashing (unless it got the whole output out by trying again).",
 ['fault_sequences','crash_points'],"every write call at which the sink fails or is short, every number of bytes accepted",
 "Tests never fail a write.",
 ['c/rtcm3tosbp/src/rtcm3tosbp.c','c/ubx2sbp/src/ubx2sbp.c','c/ixcom2sbp/src/ixcom2sbp.c','c/nov2sbp/src/nov2sbp.cc','c/sbp2rtcm/src/sbp2rtcm.c'],[('send status check then exit','cb_rtcm_to_sbp, sbp_write, check_sent, write_output')],['bytes accepted by the sink, exit status'])
prop('C24','RTCM field encoding and decoding are inverse',
 "Decoding an encoded RTCM message returns the encoded values up to field resolution.",['inputs'],"all message contents",
 "Pure function of its input.",['c/librtcm/src'],[('encoder/decoder pairs','c/librtcm/src')],['librtcm API'])
prop('C25','Signal, week-number and unit conversions follow the interface documents',
 "Signal code, frequency, lock-time, scaling and calendar conversions give the values defined by the RTCM, UBX, NovAtel, iXCOM and SBP documents for every argument.",['inputs'],"all arguments",
 "Pure function of its input.",['c/gnss_converters/src/rtcm3_utils.c','c/librtcm/src/msm_utils.c','c/nov2sbp/src/swiftnav_conversion_helpers.cc'],[('tables','same files')],['function results'])
prop('C26','The stand-alone programs pass bytes, options and status through unchanged',
 "Each stand-alone program (the C programs rtcm3tosbp, ubx2sbp, ixcom2sbp, nov2sbp and sbp2rtcm and the Rust programs of the same names) writes, for the same options, exactly the bytes its converter gives for the bytes of its input, and ends with the converter's status (0 when it has come to the end of its input), however the operating system splits reads and writes: from standard input to standard output, and for the Rust programs also from an input file, if one is named last or last but one on the command line, to standard output or to the output file named after it, whose earlier contents are replaced. A read error ends the conversion after everything received before it has been converted and written. When writing fails at any point, the flush at the end included, what was written is a prefix of the fault-free output and the program does not end with status 0 (unless it got everything out by trying again).",
 ['schedules','fault_sequences','inputs'],"all inputs and options, every way the operating system may split, fail or end reads and writes",
 "The Rust tests look at -h and one file; no test makes a system call fail or splits it.",
 ['rust/lib.rs','rust/rtcm3tosbp.rs','rust/ubx2sbp.rs','rust/ixcom2sbp.rs','rust/nov2sbp.rs','rust/sbp2rtcm.rs','c/rtcm3tosbp/src/rtcm3tosbp_main.c','c/ubx2sbp/src/ubx2sbp_main.c','c/ixcom2sbp/src/ixcom2sbp_main.c','c/nov2sbp/src/nov2sbp_main.cc','c/sbp2rtcm/src/sbp2rtcm_main.c'],[('read and write callbacks around the system calls','*_main.c, rust/lib.rs'),('buffered output flushed and checked before the end','rust/lib.rs, nov2sbp_main.cc')],['system calls, exit status'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
