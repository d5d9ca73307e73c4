#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 gen_properties.py > properties.jsonl)."""
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=False):
    w=files[0]
    a={"files":files,"mechanism":[{"name":m,"where":w if len(files)==1 else ", ".join(files)} for m in mech]}
    if state: a["state"]=[{"name":m,"where":", ".join(files)} for m in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook or None
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Encode/decode round trip preserves every AMQP value, frame and message",
 "For every AMQP value, performative, SASL frame and message that can be built through the public API, decoding its encoding succeeds, consumes exactly the encoded bytes and yields an equal value (timestamps to millisecond precision). Re-encoding the decoded value yields the same value again.",
 ["inputs"],"all values of every AMQP type, all size classes (0/8/32-bit widths), nesting, all performatives with any subset of optional fields, all message section combinations",
 "The unit tests round-trip a handful of constants; the width selection, null/omitted field and nesting logic has boundaries (255/256 bytes, zero, sign, epoch) no fixed sample covers.",
 ["codec/src/codec/encode.rs","codec/src/codec/decode.rs","codec/src/protocol/definitions.rs","codec/src/message/message.rs","codec/src/types/variant.rs"],
 ["Encode/Decode/DecodeFormatted impls","generated decode_*_inner/encode_*_inner","Message Encode/Decode"],obs=["AmqpCodec::encode/decode","Variant/Message encode+decode"])
p("C02","Declared sizes always equal the bytes emitted",
 "For every value, encoded_size() equals the number of bytes encode() appends, and every frame the codec emits starts with a 4-byte size equal to its real length with doff 2, the right frame type and channel. This holds for a message after any sequence of mutations through the public API, including mutations made after it was already encoded or measured once.",
 ["inputs","histories"],"all values, frames and all sequences of message mutations interleaved with encode/encoded_size calls",
 "Size is computed by code separate from encoding and is cached inside Message; tests only encode freshly built values.",
 ["codec/src/codec/encode.rs","codec/src/message/message.rs","codec/src/message/body.rs","codec/src/protocol/definitions.rs","codec/src/io.rs"],
 ["Encode::encoded_size","MessageInner.size cache","AmqpFrame/SaslFrame Encode","AmqpCodec Encoder"],state=["MessageInner.size"],obs=["AmqpCodec::encode"])
p("C03","Encoded bytes are conforming AMQP 1.0",
 "Every byte sequence the codec emits for a value, performative or message is well-formed AMQP 1.0: a decoder written independently from the specification accepts it, consumes all of it and reads back the same typed value, fields in specification order and under the specification's descriptor code. Compound sizes and counts are exact.",
 ["inputs"],"all values, performatives, SASL frames, message sections",
 "The unit tests decode with the same crate, so an error made symmetrically on both sides (swapped fields, wrong descriptor, wrong count) is invisible to them.",
 ["codec/src/codec/encode.rs","codec/src/protocol/definitions.rs","codec/src/message/message.rs","codec/src/types/array.rs"],
 ["Encode impls","descriptor codes","compound headers"],obs=["bytes produced by encode"])
p("C04","The decoder is total: arbitrary bytes never crash, hang or exhaust memory",
 "For every byte sequence, decoding a frame, SASL frame, protocol header, value or message returns a value or an error: it never panics, overflows the stack, loops, or allocates memory out of proportion to the input. A failed decode leaves nothing half-applied that later breaks the process.",
 ["inputs"],"all byte sequences, in particular truncated, bit-flipped, length-lying and deeply nested encodings",
 "Tests feed valid encodings; the input space reachable by an unauthenticated peer is unbounded and the failures hide behind specific size/count combinations.",
 ["codec/src/codec/decode.rs","codec/src/io.rs","codec/src/protocol/definitions.rs","codec/src/types/array.rs","codec/src/types/variant.rs"],
 ["decode_compound8/32","Vec::with_capacity(header.count)","Variant::decode recursion","decode_frame_header"],obs=["AmqpCodec::decode","ProtocolIdCodec::decode","Message::decode","Array::decode","DescribedCompound::decode"])
p("C05","Framing is independent of chunking and enforces the frame size limit",
 "However the bytes of a frame sequence are split across reads, the codec yields exactly the same frames in the same order and reports the same error at the same frame, keeping unread bytes intact. A frame whose declared size exceeds the configured maximum, or is below the minimum header, is refused as soon as its header is readable, and a frame of exactly the maximum is accepted. A client applies the max-frame-size it announces and a server its configured size limit to everything the peer sends after Open.",
 ["inputs","schedules"],"all frame sequences and all ways to split them into reads, all max_size settings",
 "Tests hand the decoder one complete buffer; the two-state decoder is only exercised by splits inside headers and bodies.",
 ["codec/src/io.rs","codec/src/codec/decode.rs","src/client/connector.rs","src/server/service.rs"],["AmqpCodec::decode DecodeState","ProtocolIdCodec::decode","max_size check"],state=["AmqpCodec.state"],obs=["AmqpCodec::decode"])
p("C06","Every legal alternative encoding decodes to the same value",
 "A value may be encoded with any constructor the specification allows (zero/small/full width numbers, 8- and 32-bit variable and compound forms, list0, numeric or symbolic descriptors, single value or array for multiple fields) and trailing fields may be omitted or null; decoding yields the same value, with the specified defaults for absent fields, and a missing mandatory field is an error. Extended frame headers are skipped.",
 ["inputs"],"all values and performatives and all legal encodings of each",
 "The library's own encoder only ever produces one form, so tests that round-trip never present the others, yet other AMQP implementations send them.",
 ["codec/src/codec/decode.rs","codec/src/protocol/definitions.rs","codec/src/protocol/mod.rs"],["decode_*_inner defaults","Descriptor matching","Multiple decoding","decode_frame_header"],obs=["AmqpFrame::decode"])
p("C07","Values and messages show the application exactly what was put in",
 "Typed views of a value (text, integers) return exactly that value or nothing. Two values compare equal exactly when they have the same type and content (maps regardless of the order of entries), and equal values hash equally, so maps keyed by values, symbols or strings find every entry under its value or its plain text. Arrays, described values and compounds give back the elements they were built from. Every accessor, mutable accessor and builder method of every performative and message section reads or sets the field it names and no other. A message's accessors return what the last mutation put there, property and annotation lookups return the entry stored under that key, clones are independent, and a reply made from a message carries its message-id as correlation-id.",
 ["inputs","histories"],"all values, pairs of values, performatives with any subset of fields, and sequences of message mutations and copies",
 "Tests look at a few constants through a few accessors; hundreds of near-identical accessors, hand-written Eq/Hash implementations and the mutation state of Message are not sampled.",
 ["codec/src/types/variant.rs","codec/src/types/symbol.rs","codec/src/types/array.rs","codec/src/types/mod.rs","codec/src/message/message.rs","codec/src/message/body.rs","codec/src/protocol/definitions.rs","codec/src/protocol/mod.rs"],["Variant PartialEq/Hash/as_*","VecStringMap/VecSymbolMap lookups","Array/Multiple iteration","performative accessors and builders","Message setters, getters, reply and clone"],state=["MessageInner"],obs=["public accessors"])
p("N01","Connections open only through a correct, successful handshake",
 "A server or client proceeds to exchange sessions and links only after the protocol header, the SASL exchange where used, and Open have succeeded in order; anything else (wrong header or version, unexpected frame, failed or aborted authentication, refusal by the handshake service, disconnect, a peer that stalls beyond the configured handshake time-out) ends the attempt with an error, no Open is ever sent after a failed authentication and no session or message service runs. A legal handshake, however the bytes are chunked or pipelined and with or without a SASL challenge round, completes, and both sides see the parameters the other sent. If the application's control or publish service then cannot be created, the attempt ends with the corresponding error, the transport is closed and nothing the handshake handed out stays pending.",
 ["inputs","schedules","fault_sequences"],"all peer byte sequences during the handshake, chunkings and cut points, all SASL outcomes",
 "Tests cover one successful path per mechanism; refusals and split or interleaved handshakes are not sampled.",
 ["src/server/service.rs","src/server/handshake.rs","src/server/sasl.rs","src/client/connector.rs","codec/src/io.rs"],["handshake()","Sasl/SaslInit/SaslResponse/SaslSuccess","connect_sasl_inner","connect_plain_inner"],obs=["wire bytes","ServerHandler result","Connector result"])
p("N02","Emitted frames never exceed the peer's max-frame-size",
 "Once the peer has announced max-frame-size M in Open, no frame the endpoint emits on that connection is longer than M bytes, whatever the message size, delivery tag, properties or number of links. A larger message is split into several transfers, or the operation fails with an error and nothing illegal is sent.",
 ["inputs","configurations"],"all announced frame sizes from 512 up, all message sizes around multiples of the limit, tags, all performatives",
 "Tests use one frame size and bodies far from the boundary; the headroom arithmetic only breaks for particular sizes.",
 ["src/session.rs","src/connection.rs","src/types.rs"],["SessionInner::send_transfer splitting","Connection::new max_frame_size","RemoteServiceConfig::new"],state=["ConnectionInner.max_frame_size"],obs=["wire frame sizes"])
p("N03","Channel numbers stay within negotiated limits and map to the right session",
 "An endpoint never begins a session on a channel above the limit either side announced, reports an error to the caller of open_session instead, and reuses a channel only after its session has fully ended. Frames arriving on a channel are always applied to the session that channel was mapped to, even when both directions use different numbers or channels are reused.",
 ["histories","configurations"],"all histories of session open/end from both sides with distinct channel numbers and all channel-max values",
 "Tests open one session on channel 0 so local and remote numbers coincide; the mapping only matters when they differ.",
 ["src/connection.rs","src/session.rs"],["sessions slab vs sessions_map","open_session","register_remote_session","complete_session_creation","close_session"],state=["ConnectionInner.sessions","ConnectionInner.sessions_map"],obs=["wire Begin/End channels","OpenSession result"])
p("N04","Idle connections are kept alive and dead peers are dropped",
 "If the peer announced an idle time-out, the endpoint never lets that long pass without sending a frame while the connection is open, and it sends nothing more once it has sent its Close. If a keep-alive time is configured, a peer that stays silent beyond it is dropped and the control service is told why; a peer that keeps sending frames, or any peer where no keep-alive is configured, is never dropped for idleness.",
 ["schedules","configurations"],"all idle time-out values and traffic patterns",
 "Needs long idle executions with particular time-out values; no unit test waits for them.",
 ["src/dispatcher.rs","src/types.rs","src/lib.rs","src/server/handshake.rs"],["Dispatcher idle timer","RemoteServiceConfig::timeout_remote_secs","to_open idle_time_out"],obs=["wire frame times"])
p("S01","A sender never transfers without link credit",
 "At every instant the number of deliveries begun on a link is at most the largest delivery count the receiver's flow frames permit (delivery-count + link-credit in serial arithmetic), for every sequence of grants, reductions, revocations and stale flows; sends beyond that wait and proceed in the order they were issued once credit arrives. Credit granted is never lost: while credit remains, no send keeps waiting.",
 ["histories","schedules"],"all interleavings of sends, cancelled sends and flow frames, including credit reduction, zero credit, missing delivery-count and counter wrap-around",
 "Tests grant a large credit once; violations need reductions, pipelined flows, cancellations or wrap-around.",
 ["src/sndlink.rs","src/session.rs","src/dispatcher.rs"],["SenderLinkInner::apply_flow","SenderLinkInner::send wait loop","Dispatcher control frame ordering"],state=["SenderLinkInner.link_credit","delivery_count","pending_transfers"],obs=["wire Transfer vs Flow","SenderLink::credit()"])
p("S02","A sender never exceeds the peer's session incoming window",
 "The number of transfer frames sent on a session never exceeds what the peer's latest Begin or Flow allows (next-incoming-id + incoming-window in serial arithmetic, the initial id when absent), summed over all links. Blocked transfers resume, in order, as soon as the window reopens and never stay blocked while it is open.",
 ["histories","schedules"],"all sequences of window updates (shrinking, zero, missing next-incoming-id, wrap-around) interleaved with sends on several links",
 "Tests always run with an effectively unlimited window.",
 ["src/session.rs"],["SessionInner::handle_flow","SessionInner::send_transfer"],state=["remote_incoming_window","next_outgoing_id","pending_transfers"],obs=["wire Transfer vs Begin/Flow","Session::remote_window_size()"])
p("S03","Receivers account for link credit correctly and enforce it",
 "A receiving endpoint accepts every delivery covered by the credit it has granted and refuses, with transfer-limit-exceeded, a delivery that exceeds everything it granted. The credit it reports and announces stays consistent with deliveries received, so a peer that obeys flow control is never detached and a link that replenishes credit never stalls. An aborted delivery, which the application never sees, does not use up its credit.",
 ["histories"],"all sequences of credit grants, deliveries (single and multi-frame, any initial delivery-count) and replenishments",
 "Tests grant once and receive few messages; drift and over-enforcement appear after repeated grants, multi-frame deliveries or counter wrap-around.",
 ["src/rcvlink.rs","src/router.rs","src/session.rs"],["ReceiverLinkInner::set_link_credit","handle_transfer credit check","rcv_link_flow"],state=["ReceiverLinkInner.credit","delivery_count"],obs=["wire Flow/Detach","ReceiverLink::credit()"])
p("S04","Messages are delivered exactly once, in order and byte-identical",
 "Every message accepted for sending on a link that stays up reaches the receiving application exactly once, in send order per link, with the same body bytes, delivery tag and message format, regardless of size, fragmentation into transfers, transport chunking and interleaving with other links. An aborted or unfinished delivery is never handed to the application as a message.",
 ["inputs","schedules"],"all message sizes and fragmentations, chunkings, numbers of links and sessions, interleavings",
 "Tests send a few small messages on one link; reassembly and interleaving errors need multi-frame deliveries concurrent with others.",
 ["src/session.rs","src/rcvlink.rs","src/sndlink.rs","src/router.rs"],["send_transfer splitting","handle_transfer reassembly","ReceiverLink queue"],state=["ReceiverLinkInner.partial_body","queue"],obs=["application receive events","wire Transfer frames"])
p("S05","A delivery is settled once, with the outcome the receiver gave to that delivery",
 "Each sent unsettled delivery's wait resolves with exactly the outcome the peer's disposition gives for its delivery-id, for single and range dispositions in any order, and never with another delivery's outcome. The receiving side emits one settling disposition per delivery, for the right id and with the outcome the application chose, and nothing after the remote has settled it.",
 ["histories","schedules"],"all orders, ranges and repetitions of dispositions over concurrent deliveries on several links; all outcomes; handlers completing out of order",
 "Tests settle one delivery at a time in order.",
 ["src/session.rs","src/delivery.rs","src/router.rs"],["SessionInner::settle_deliveries","Delivery::wait/settle/drop","DeliveryInner::handle_disposition"],state=["unsettled_snd_deliveries","unsettled_rcv_deliveries"],obs=["wire Disposition","Delivery::wait result"])
p("S06","Transfer frames form well-formed deliveries with unique sequential ids",
 "On each session, successive deliveries carry consecutive delivery-ids, every first transfer carries handle, delivery-id and tag of an attached link, tags of unsettled deliveries on a link are distinct, and the frames of a multi-transfer delivery are contiguous on their link with more set on all but the last and no conflicting id, tag or settled flag. Settled sends are marked settled and never expect a disposition.",
 ["histories","inputs"],"all concurrent send histories over several links, sizes and settle modes",
 "Depends on interleavings of concurrent senders and on message size; tests look at single sends.",
 ["src/session.rs","src/sndlink.rs"],["send_transfer","next_outgoing_id","get_tag"],obs=["wire Transfer sequence"])
p("S07","Every pending operation completes when its link, session or connection goes away",
 "When a link is detached, a session ended or a connection closed or lost, by either side and at any point, every operation pending on it (attach, send, wait for settlement, receive, credit wait, detach, session open/end, on_close) completes promptly with an error or final result; none hangs, and operations started afterwards fail instead of hanging.",
 ["histories","fault_sequences","schedules"],"all combinations of pending operations with detach/end/close/disconnect at every point, locally or remotely initiated",
 "Requires failure at particular points of particular operations; tests hardly inject any.",
 ["src/session.rs","src/sndlink.rs","src/rcvlink.rs","src/connection.rs","src/delivery.rs","src/dispatcher.rs"],["SessionInner::set_error","handle_detach","ConnectionInner::set_error","remote_detached","Delivery::wait"],obs=["completion events of API futures"])
p("S08","Links and sessions are isolated from one another",
 "Frames for one link or session (transfers, flows, dispositions, detach, end) affect only that link or session: detaching a link or ending a session never disturbs deliveries, credit, pending operations or the life of any other, including when handles, channels or link names are reused or differ between the two directions.",
 ["histories"],"all histories of attach/detach/begin/end from both sides with arbitrary handle, channel and name choices",
 "Tests use one link and one session with equal numbers on both sides, where mixing up local and remote ids is harmless.",
 ["src/session.rs","src/connection.rs"],["links slab","remote_handles","links_by_name","handle_detach","pending_transfers per link"],state=["links","remote_handles","links_by_name"],obs=["wire frames per handle/channel","API events per link"])
p("S09","Detach, End and Close handshakes are completed exactly once and nothing follows",
 "Each Attach is answered; each Detach, End and Close received is answered by exactly one of the same kind (unless already sent), and after sending one of them the endpoint emits no further frame on that link handle, session channel or connection until it is re-attached or begun anew. Simultaneous closing from both sides ends cleanly with one frame of the kind each way.",
 ["histories","schedules"],"all interleavings of local and remote detach/end/close with transfers, flows, dispositions and async handlers in progress",
 "Needs crossing of frames and late completions of handlers; tests close in quiet states.",
 ["src/session.rs","src/connection.rs","src/dispatcher.rs","src/rcvlink.rs","src/sndlink.rs","src/delivery.rs"],["detach_sender_link","detach_receiver_link","handle_detach","Session::end","End/Close handling"],obs=["wire frame sequence per handle/channel"])
p("S10","No peer frame sequence can crash or wedge an endpoint",
 "For every sequence of well-formed or malformed frames a peer may send, in any state, the endpoint neither panics nor spins nor stops responding: it keeps serving correct traffic (new sessions, links, deliveries and the application's own calls), or it closes the affected link, session or connection and reports the error to its application. Work and memory spent per frame are bounded regardless of the numbers it carries, and once the connection is gone every operation still waiting completes.",
 ["inputs","histories"],"all frame sequences with arbitrary field values in any protocol state",
 "Unbounded input space that only a hostile or buggy peer produces.",
 ["src/session.rs","src/connection.rs","src/dispatcher.rs","src/rcvlink.rs","src/sndlink.rs","src/router.rs"],["handle_frame","handle_attach","handle_transfer","settle_deliveries","attach_remote_sender_link"],obs=["panics, per-frame poll counts, wire Close/Detach"])
p("S11","Message size limits are honoured in both directions",
 "A message larger than the limit the peer announced for the link is refused locally with an error and nothing of it is sent; a message up to the limit is sent (absent or zero means no limit). An incoming message larger than the limit the endpoint set for its link is refused with message-size-exceeded and never reaches the application - as soon as what arrived of it exceeds the limit, so an unfinished message never holds more -, one within the limit is delivered, however it is split into transfers.",
 ["inputs","configurations"],"all limits and message sizes around them, single- and multi-transfer",
 "Boundary arithmetic and the split between first and later transfers; tests never set a limit.",
 ["src/rcvlink.rs","src/sndlink.rs","src/delivery.rs","src/session.rs"],["max_message_size checks in handle_transfer and TransferBuilder::send"],obs=["wire Transfer/Detach","send result","application receive events"])
p("S12","Errors carry their condition and description to the other side's API",
 "When either side detaches a link, ends a session, closes the connection or rejects a delivery with an error, the other side's API reports that same condition and description, on the right object, and a handler or control-service error is turned into a detach, rejection or close with the documented condition. A connection keeps reporting the first error that ended it.",
 ["inputs","histories"],"all conditions and descriptions, at every level, in both directions",
 "Tests assert one error at most.",
 ["src/error.rs","src/dispatcher.rs","src/session.rs","src/connection.rs","src/router.rs","src/server/error.rs"],["AmqpProtocolError::LinkDetached/SessionEnded/Closed","LinkError -> codec Error","DispatcherError handling"],obs=["wire error fields","API error results"])
p("R01","The router dispatches each link and message to its own handler, once",
 "A link whose address matches a registered pattern is served by that pattern's handler with the right path parameters, a link with no address or no match is refused with an error and not served, and every message arriving on a link is handed exactly once to that link's handler, in arrival order unless the handler was not ready for it, and the handler's outcome settles that very message. A link whose messages were handled, however the handler fared, gets credit for further ones. One handler's failure or slowness does not affect other links. A handler is shut down and released when the peer detaches its link or ends its session, and never while the link is live.",
 ["inputs","histories"],"all address patterns, link attach/detach histories, concurrent links and handler outcomes and delays",
 "Tests route one link to one resource.",
 ["src/router.rs","src/types.rs"],["RouterService::call","handlers map","RouterServiceInner::handle"],state=["RouterServiceInner.handlers"],obs=["handler invocation events","wire Attach/Detach/Disposition"])
p("E01","Control events are reported exactly once, in order, for the right object",
 "Each remote attach of a sender, flow, remote detach, session end and connection close is reported to the control service exactly once, in wire order per link or session, with the link or session it concerns and the whole frame the peer sent; locally initiated detach and session end are reported once too. No event is lost when many frames arrive at once or the control service is slow.",
 ["histories","schedules"],"all frame bursts and control-service delays",
 "Tests use immediate control services and one event at a time.",
 ["src/dispatcher.rs","src/control.rs","src/connection.rs","src/session.rs"],["Dispatcher::call/poll","ControlQueue","Action mapping"],state=["ControlQueue.pending","Dispatcher.ctl_fut"],obs=["control service calls vs wire frames"])
p("E02","An unready service holds input back; a failing one ends the connection",
 "While the application's control or publish service is not ready no call of it begins and no further frame of the peer is acted upon; once it is ready everything that arrived is processed in order, as though it had only been late. A service that takes one call at a time is never given two at once. If a readiness check fails the connection is closed with that error, all pending operations end and the endpoint's task ends with an error. Whenever a connection ends, whatever the services' readiness was, the task ends, the control service is told Closed once and each service is shut down exactly once, the control service not being called afterwards.",
 ["histories","schedules"],"all frame histories with services unready for arbitrary spans, at any concurrency limit, at connection end, and failing",
 "Tests use services that are always ready.",
 ["src/dispatcher.rs","src/server/service.rs","src/client/connection.rs"],["Dispatcher::ready/poll/call/shutdown","Dispatcher.ctl_fut"],state=["Dispatcher.service/ctl_service bindings","ctl_fut","ControlQueue.pending"],obs=["service readiness polls and calls vs wire frames","Close frame and task result","shutdown calls"])
p("A01","The API's parameters reach the wire and its views show what the wire carries",
 "Parameters given to the builders of sessions, senders and receivers (capabilities, properties, settle modes, terminus, limits, frame modifications) are in the Begin or Attach the peer receives, unchanged; one that cannot fit the peer's frame size fails with an error and nothing is sent. Conversely the frames, transfers, handles, names, channels, limits and window sizes the API shows are those of the peer's performatives, lookups by name, handle or channel find exactly the live object that has it, and confirmation of a peer's Attach repeats the peer's source and target.",
 ["inputs","histories"],"all field values; histories with reused names, handles and channels",
 "Tests use default builders and look no link up.",
 ["src/session.rs","src/sndlink.rs","src/rcvlink.rs","src/connection.rs","src/control.rs"],["OpenSession","SenderLinkBuilder","ReceiverLinkBuilder","Session::get_*_link*","Session::frame","SessionInner.links_by_name/remote_handles"],state=["SessionInner.links","links_by_name","remote_handles"],obs=["Begin/Attach on the wire vs builder arguments","accessors and lookups vs wire history"])
for x in P: print(json.dumps(x))
