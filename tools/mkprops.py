#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))
CS='saltchannel/v2/salt_client_session.py'; SS='saltchannel/v2/salt_server_session.py'
EC='saltchannel/v2/encrypted_channel_v2.py'; AC='saltchannel/v2/app_channel_v2.py'
PK='saltchannel/v2/packets.py'; UP='saltchannel/util/packets.py'; A1='saltchannel/a1a2/packets.py'
AS='saltchannel/a1a2/a1_client_session.py'; CH='saltchannel/channel.py'; UT='saltchannel/util/time.py'
UI='saltchannel/util/__init__.py'; SL='saltchannel/saltlib/saltlib.py'; DA='saltchannel/dev/client_server_a.py'
MI='saltchannel/dev/mitm_channel.py'; TU='saltchannel/dev/tunnel.py'
NT="The 32 stable tests only build and parse single packets; no test runs a session or a channel at all."

prop('C01','The client accepts only a server that signed this very handshake',
 "A client handshake returns normally only if the peer presented a signing key together with a valid signature by that key over this session's first message exactly as the client sent it and the second message exactly as the client received it; if the client named the server key it wants, the presented key is that key. Whenever any handshake message is altered, replaced, replayed from another session, reordered, truncated or forged so that this is not so, the client's handshake raises instead of returning.",
 ['inputs','histories','fault_sequences'],'every handshake option combination and every sequence of messages an active attacker (holding its own keys and everything it ever saw) can hand to the client',
 NT+' An adversarial message sequence is never tried.',[CS,EC,PK],
 [('signature over prefix + hash(M1) + hash(M2)',CS+':validate_signature1'),('hash of the raw received M2',CS+':do_m2'),('wanted server check',CS+':handshake')],
 [('m1_hash/m2_hash','transcript bound by the signatures',CS)],['handshake() return/raise of SaltClientSession'])
prop('C02','The server accepts only a client that signed this very handshake',
 "A server handshake returns normally with an application channel only if the client presented a signing key together with a valid signature by that key over this session's first message exactly as the server received it and the second exactly as the server sent it. The client identity the server session then reports is that key, and a server session whose handshake did not complete reports no client identity.",
 ['inputs','histories','fault_sequences'],'every handshake option combination and every sequence of messages an active attacker can hand to the server',
 NT+' An adversarial message sequence is never tried.',[SS,EC,PK],
 [('signature over prefix + hash(M1) + hash(M2)',SS+':validate_signature2'),('identity recorded from M4',SS+':do_m4')],
 [('client_sig_key','client identity',SS)],['handshake() return/raise of SaltServerSession','client_sig_key'])
prop('C03','Identities and data leave only encrypted, and only to a proven server',
 "Apart from the two opening messages (and a no-such-server or A2 answer), everything a session puts on the transport is an encrypted packet sealed under the key agreed between its own ephemeral key and the peer's ephemeral key of this session. The client sends its own identity message and application data only after the server's signature has been verified, and a session whose handshake failed sends nothing further.",
 ['inputs','histories','fault_sequences'],'all option combinations, message sequences and attacker behaviours',
 NT+' Nothing looks at what leaves on the wire, or when.',[CS,SS,EC,AC],
 [('M4 sent after Signature1 check',CS+':handshake'),('all post-M2 traffic through the encrypted channel',EC+':write'),('session key from own secret and peer public key',CS+':create_encrypted_channel')],(),['bytes handed to the underlying channel'])
prop('C04','No nonce is ever used twice under one session key',
 "Within a session, no two encrypted packets are ever sealed under the same key and nonce: the client uses 1,3,5,... and the server 2,4,6,..., each encoded as an 8-byte little-endian counter followed by sixteen zero bytes, consecutive in the order the packets are handed to the transport. This holds for every history of single and batched writes, buffered handshake messages, rejected reads, and writes that fail or are cancelled at any point.",
 ['histories','fault_sequences','schedules'],'every history of operations, failures and concurrent writers in a session, of any length',
 NT+' No test encrypts two packets.',[EC,AC,SS],
 [('Nonce.advance after each encryption',EC+':write'),('advance after M3',SS+':do_m3'),('odd/even start by role',EC+':__init__')],
 [('read_nonce/write_nonce','packet counters',EC)],['nonce under which each packet on the wire decrypts'])
prop('C05','Received data is an exact prefix of what the peer sent, whatever is tampered',
 "The application messages a session delivers after a completed handshake are exactly the first k messages its authenticated peer wrote, in order and unchanged, for some k, even when an attacker drops, replays, reorders, reflects, truncates, modifies or injects packets. A packet that is not the next genuine one raises BadPeer, delivers nothing, and leaves the stream position unchanged so that the next genuine packet is still accepted.",
 ['inputs','histories','fault_sequences'],'every sequence of packets an attacker can hand to either side after the handshake',
 NT+' No packet is ever decrypted, let alone a tampered one.',[EC,AC,PK],
 [('authenticated decryption under the expected counter',EC+':read'),('counter advances only after success',EC+':read'),('pending queue of a multi packet',AC+':read')],
 [('read_nonce','next expected packet',EC),('readQ','undelivered messages of a multi packet',AC)],['read() results/exceptions'])
prop('C06','Every application message written arrives once, whole and in order',
 "Over a faithful transport, each message passed to an application-channel write in either direction is returned by exactly one read on the other side, in write order, with the same bytes and message boundaries, whatever the number of messages per call (including more than 65535) and whatever their sizes (including empty, exactly 65535 and larger). A write of two or more messages that all fit travels as one multi-message packet, otherwise as one packet per message.",
 ['inputs','histories'],'all sequences of writes in both directions, batch sizes, message sizes and interleavings of writes and reads',
 NT+' One multi packet with five tiny messages is round-tripped.',[AC,PK,EC],
 [('packetisation',AC+':write'),('should_use',PK+':MultiAppPacket.should_use'),('FIFO of extra messages',AC+':read')],
 [('readQ','undelivered messages',AC)],['read() results','plaintext of packets on the wire'])
prop('C07','The last-message flag marks exactly the final packet',
 "A write with is_last set marks the last packet it produces and no other, passes is_last on to the underlying channel, and a write without it marks none. After each read that consumed a packet, the application channel's last property equals that packet's flag (it does not stick from earlier packets).",
 ['inputs','histories'],'all histories of writes with and without is_last, single and batched, and reads on the other side',
 NT+' The flag is only tested as a bit in one packet.',[EC,AC,PK],
 [('flag on final packet',EC+':write'),('flag taken from each packet',EC+':unwrap')],[('last_flag','flag of last unwrapped packet',EC)],['last','wire bytes','is_last argument of the underlying write'])
prop('C08','Honest peers always complete the handshake and agree',
 "For every combination of options (wanted server key named or not, M2 and M4 buffering, timestamps supported or not on each side) and all key material, two honest peers over a faithful transport both complete the handshake, hold the same session key, and each learns the other's true signing key. Every handshake byte they exchange is exactly what Salt Channel v2 prescribes for those inputs.",
 ['configurations','inputs'],'all option combinations, key pairs and time values',
 NT+' No handshake is run.',[CS,SS,PK,EC],
 [('handshake sequencing',CS+':handshake'),('handshake sequencing',SS+':handshake')],[('session_key','shared key',CS)],['wire bytes','handshake() results','session_key','client_sig_key'])
prop('C09','A client that names a server gets that server or a no-such-server error',
 "When the first message names a server key, the server proceeds only if it is its own signing key; otherwise it answers with a single no-such-server message marked last (time field set, no server key disclosed) and its handshake raises NoSuchServerException, as does the handshake of the client receiving it. A client session configured with a wanted server key includes exactly that key in its first message; one without includes none and is served by any server.",
 ['inputs','configurations'],'all wanted keys (absent, matching, differing anywhere) and all options',
 NT+' The M1 and M2 flag bits are tested in isolation only.',[CS,SS,PK],
 [('wanted key in M1',CS+':do_m1'),('comparison with own key',SS+':do_m1'),('NoSuchServer from M2',CS+':do_m2')],(),['M1/M2 bytes','handshake exceptions'])
prop('C10','A1/A2 discovery answers truthfully and opens no session',
 "A server handed an A1 question answers with exactly one A2 packet flagged last and completes without opening an encrypted or application channel: no-such-server if the question addresses a public key other than its own, otherwise the protocol list the server was configured with or the default Salt Channel v2 entry. The asking client obtains exactly the fields the server sent.",
 ['inputs','configurations'],'all A1 address types and addresses, all server configurations and protocol lists',
 'Packet tests build A1 and A2 packets; no test has a server answer a question.',[SS,AS,A1],
 [('A1 fallback',SS+':do_a2'),('A1 client',AS+':do_a1a2'),('validation',A1+':A2Packet.validate')],[('is_done','A1/A2 exchange ended the session',SS)],['A2 bytes','is_done','a2 of the client session'])
prop('C11','A misbehaving peer can only cause a communication error',
 "Whatever bytes the peer sends at any step of a handshake, an A1/A2 exchange or an open channel (empty, truncated, oversized, wrong type, random, inconsistent counts or lengths, unusable public keys, out-of-range first times), the operation in progress either succeeds on a well-formed message or raises an exception of the ComException family. It never raises anything else, never hangs without waiting for input, and never treats a message too short for its fields as valid.",
 ['inputs','histories','fault_sequences'],'all byte strings at every protocol step',
 'Three malformed packets are tried, at packet level only.',[UP,PK,A1,CS,SS,EC,AC,UT],
 [('length and type checks',UP+':Packet.validate'),('BadPeer wrapping',EC+':decrypt'),('first time check',UT+':NullTimeChecker')],(),['exception class of handshake()/read()/do_a1a2()'])
prop('C12','Packets encode and decode exactly the v2 wire format',
 "For every packet kind and all field values, encoding yields exactly the byte layout of Salt Channel v2 (little-endian fields, flag bits, lengths, counts) and decoding those bytes yields the same field values again and the same size. Decoding accepts a byte string only if type, protocol indicator, lengths, counts, flags and protocol-name characters are consistent with that layout, and raises BadPeer otherwise.",
 ['inputs'],'all field values and all byte strings, for M1-M4, encrypted, app, multi-app, A1 and A2 packets',
 'About 25 fixed examples are tried; lengths, counts, flags and character rules are not explored.',[PK,A1,UP],
 [('ctypes layouts',PK),('ctypes layouts',A1),('validate methods',UP)],(),['bytes(packet)','from_bytes','size'])
prop('C13','Every message carries its sender\'s time and is time-checked on receipt',
 "The first message of each side carries its time keeper's first time and every later message (identity, application, multi) the time keeper's time at the moment it is handed to the transport, little-endian and unaltered up to 32 bits; a server that buffers its second message gives both buffered messages the first time. Each received time is reported to the receiving session's own time checker before the message is acted upon, whatever the checker raises aborts the operation (nothing of a refused packet is ever delivered, later packets are unaffected), and by default first times other than 0 and 1 are refused with BadPeer.",
 ['histories','inputs','configurations'],'all time keepers/checkers, time values, option combinations and histories',
 NT+' Time is only tested as a fixed packet field.',[CS,SS,AC,UT],
 [('get_first_time/get_time',AC+':write'),('report_first_time/check_time',CS),('null keeper/checker',UT)],(),['time fields on the wire','calls to the time checker'])
prop('C14','Buffering handshake messages changes only how they are grouped',
 "With M2 buffering the server hands its second and third handshake messages to the transport in a single write, and with M4 buffering the client hands its identity message to the transport together with, and ahead of, the packets of its first application write. Otherwise the messages, their order, nonces, signatures and outcome are those of the unbuffered handshake (time fields excepted), so either side works with a peer using any combination.",
 ['configurations','histories'],'all buffering combinations, both directions, and all first writes (single, batched, last, oversized)',
 NT,[CS,SS,AC],
 [('buffer_m2',SS+':do_m3'),('buffer_M4',CS+':do_m4'),('buffered M4 flush',AC+':write')],[('buffered_m4','pending M4',AC)],['grouping and bytes of underlying writes'])
prop('C15','Stream transports deliver exactly the messages written',
 "Over a socket or an asyncio stream, the sequence of messages read is exactly the sequence written (any sizes including empty, any batch), however the byte stream is split into segments; each message travels as a 4-byte little-endian length followed by its bytes. If the stream ends or fails before a message is complete, or announces a negative length, the read raises an exception of the ComException family and never returns a partial or invented message.",
 ['inputs','schedules','fault_sequences'],'all message sequences, all segmentations of the byte stream, all positions of end-of-stream or socket error',
 NT,[CH,DA],
 [('recvall loop',CH+':SocketChannel.recvall'),('length prefix',CH+':SocketChannel.write_sync'),('readexactly',DA+':SaltChannelStreamReader.read_msg')],(),['read results','bytes on the stream'])
prop('C16','The synchronous API behaves exactly like the asynchronous one',
 "Every coroutine of the client and server sessions, the encrypted and application channels and the asyncio transport has a _sync counterpart that blocks and has the same effects, the same result and the same exceptions, and the A1 client offers both forms with the same effects. Sessions can be created and run to completion through the synchronous API from any thread, whether or not that thread already has an event loop; a session or channel given an event loop explicitly runs its blocking calls on that one.",
 ['histories','configurations','schedules'],'all operation histories through either API, in main and other threads',
 NT,[UI,CS,SS,AC,EC,AS,CH],
 [('Syncizer metaclass',UI+':Syncizer'),('force_event_loop',UI+':force_event_loop')],(),['results, exceptions and wire bytes of both APIs'])
prop('C17','Sessions in one process do not influence each other',
 "Any number of client and server sessions, with their own keys, options, time keepers and checkers, can run interleaved in one process or in parallel threads (each used by the thread that created it), and every one behaves, byte for byte, as if it ran alone. Creating, failing or finishing one session changes no other.",
 ['schedules','histories'],'all interleavings of the steps of several sessions',
 NT+' Nothing ever runs two sessions.',[CS,SS,AC,EC,UT,PK,SL],
 [('per-instance state',AC+':__init__'),('time keeper instances',UT),('stateless singletons',UI+':Singleton')],(),['wire bytes and results of interleaved sessions'])
prop('C18','All crypto back ends honour one contract',
 "Every available back end computes the same keys, signatures, shared keys, ciphertexts and hashes for the same inputs, opening what it sealed or signed returns the original message for all message lengths, both peers derive the same shared key, and returned values have the documented lengths. Opening with any altered byte, wrong key, wrong nonce or truncated input raises the library's bad-signature or bad-encrypted-data exception and returns nothing; generating keys from a seed or secret key of the wrong length, and computing a shared key with keys of the wrong length, is refused with ValueError, and random byte requests return that many fresh bytes.",
 ['inputs','histories'],'all messages, keys, nonces and tamperings, over sequences of operations mixing back ends',
 'tests/saltlib (one example each) cannot even be collected in this environment and does not run.',['saltchannel/saltlib/saltlib.py','saltchannel/saltlib/saltlib_native.py','saltchannel/saltlib/saltlib_pynacl.py','saltchannel/saltlib/saltlib_tweetnaclext.py'],
 [('padding and slicing','saltchannel/saltlib/saltlib_native.py'),('exception mapping','saltchannel/saltlib/saltlib_pynacl.py'),('length checks',SL)],(),['results and exceptions of the SaltLib API and each back end'])
prop('C19','Back-end selection uses what is installed',
 "Asking for the best library yields the first available one in the fixed preference order native, PyNaCl, TweetNaCl extension, asking for a particular one yields exactly that one, and asking for one that is not available, or for the best when none is, raises NoSuchLibException. The package is usable whenever at least one of them is installed.",
 ['configurations'],'all subsets of available back ends and all selections',
 'The only test of selection is not collectable here, and ignores the result.',[SL,'saltchannel/saltlib/saltlib_native.py','saltchannel/saltlib/saltlib_pynacl.py','saltchannel/saltlib/saltlib_tweetnaclext.py'],
 [('getLib',SL+':SaltLib.getLib'),('isAvailable','saltchannel/saltlib/saltlib_base.py')],(),['getLib result/exception'])
prop('C20','Concurrent and failing writes never corrupt the channel',
 "When several tasks write on one application channel at the same time, and reads run concurrently, the packets reach the transport in counter order with each call's packets contiguous, and the peer receives every message of every call, each call's messages together and in order. A write whose transport fails or which is cancelled raises that failure, and later writes continue with fresh counters and never resend or duplicate earlier data.",
 ['schedules','fault_sequences'],'all interleavings of concurrent writes and reads at their suspension points, and all failure points',
 NT,[AC,EC,CH],
 [('encrypt and hand over without suspension',EC+':write'),('counter advances before the transport write',EC+':write')],(),['wire order, read results, exceptions'])
prop('C21','Monitoring and in-process channels are transparent',
 "Wrapping a channel in the man-in-the-middle monitor changes nothing about the messages, grouping, last marking, results or exceptions seen by its users in either API; its byte counters equal the payload bytes read and written, and its log receives one entry per message in order, immediately or, with buffering on, at the next flush. The in-process tunnels deliver each written message to the other end once, whole and in order.",
 ['histories','inputs'],'all sequences of operations through the monitor and the tunnels',
 NT,[MI,TU],
 [('decorator',MI+':MitmChannel'),('log buffer',MI+':_log_event'),('queues',TU)],(),['results, counters, log records'])
prop('C22','The pure-Python crypto back end computes the NaCl functions',
 "The bundled pure-Python back end (SaltLibPure over the TweetNaCl port) can be instantiated and computes, for all messages, keys, seeds and nonces, the same key pairs, signatures, shared keys, sealed boxes and hashes as NaCl. It opens exactly what NaCl signed or sealed under the matching key and nonce, returning the original message, and raises the library's bad-signature or bad-encrypted-data exception for altered, truncated or foreign input; seeds and secret keys of the wrong length are refused with ValueError and random byte requests return that many fresh bytes.",
 ['inputs','histories'],'all inputs of the back end\'s functions, over sequences of operations','No test imports it.',['saltchannel/saltlib/pure_pynacl/tweetnacl.py','saltchannel/saltlib/saltlib_pure.py'],
 [('port of TweetNaCl','saltchannel/saltlib/pure_pynacl/tweetnacl.py'),('adapter','saltchannel/saltlib/saltlib_pure.py:SaltLibPure')],(),['function results and exceptions'])
prop('C23','Client/server pairs run every session to completion on its own connection',
 "Running n sessions on a client/server pair (the socket pair with client threads, the asyncio pair with client processes) runs exactly n client sessions, each connected to a server session of its own: what one of them writes reaches only that server session and vice versa, whole and in order. The run returns only when all client sessions have ended; a client or server session that raises or disconnects early ends only itself (the asyncio pair raises a client's failure to the caller once all have ended, the socket pair logs it and returns), and the server can then be stopped. The echo and example sessions, in both forms, run to completion on these pairs, and the examples put exactly the bytes on the wire that Salt Channel v2 prescribes for their fixed keys and messages and report the true session key and byte totals.",
 ['schedules','histories','fault_sequences'],'all schedules of the client and server sessions, all scripts of the sessions, failures included',
 NT,['saltchannel/dev/client_server.py','saltchannel/dev/client_server_a.py','saltchannel/dev/example_session1.py','saltchannel/dev/simple_echo_session.py'],
 [('socket pair','saltchannel/dev/client_server.py:MpClientServerPair'),('asyncio pair','saltchannel/dev/client_server_a.py:ClientServerPairA'),('examples','saltchannel/dev')],(),['messages seen by client and server sessions, order of endings, wire bytes of the examples'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
