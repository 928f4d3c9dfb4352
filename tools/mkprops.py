#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}})

prop('C01', 'Retransmitted SIP datagrams never reach the application twice',
 'A SIP datagram (request or response) that is received again while the stack still remembers it is never handed to the application a second time: the answer already sent for it, if any, is sent again byte for byte, and nothing else happens. '
 'Forgetting happens only by the periodic purge, so every remembered datagram is remembered for at least one full purge period after it was last recorded, and a request retransmission that matches a live server transaction only re-sends that transaction\'s last response. '
 'A datagram that cannot be parsed is never delivered, is answered only if its error carries a response, and never raises out of the receive path into the network loop.',
 ['inputs', 'histories'], 'every datagram, every content of the retransmission memory and of the two transaction tables, every purge history',
 'The transaction layer has no test at all; the property is over every datagram and every prior history of the stack.',
 ['sippy/SipTransactionManager.py'], [('two-generation cache of message digests', 'SipTransactionManager.handleIncoming, rCachePurge, transmitData'), ('duplicate detection by transaction id', 'SipTransactionManager.incomingRequest')],
 [('l1rcache/l2rcache', 'digest of a datagram -> reply to resend or nothing', 'SipTransactionManager')], ['resp_cb/req_cb calls', 'userv.send_to'])

prop('C02', 'A server transaction sends one final answer and always terminates',
 'For every request received, the application can send any number of provisional answers and then at most one final answer; any attempt to answer after that is refused, leaves the transaction as it was and sends nothing. '
 'A CANCEL is always answered: 481 when nothing matches, otherwise 200, and it terminates the INVITE with 487 and notifies the application once, if and only if no final answer was sent before. '
 'The answer to an INVITE is retransmitted with doubling intervals until the ACK arrives or 32 seconds pass; exactly one of the ACK and no-ACK notifications is delivered, and afterwards the transaction has no timer and no table entry left.',
 ['inputs', 'histories', 'schedules'], 'every transaction state, every request and response, every order of timers, ACK, CANCEL and application answers',
 'No test drives the transaction layer; the claim is over all interleavings of timers, ACKs, CANCELs and answers.',
 ['sippy/SipTransactionManager.py'], [('server transaction state machine', 'SipTransactionManager.incomingRequest, sendResponse, doCancel, timerA, timerD, timerE, timerF')],
 [('state, teA, teD, teE, teF', 'state and timers of a server transaction', 'SipTransaction')], ['userv.send_to', 'ack_cb/noack_cb/cancel_cb'])

prop('C03', 'A client transaction reports one final outcome and acknowledges it correctly',
 'For every request sent, the application is told of each provisional response and of at most one final outcome, a response from the network or a locally generated 408 after the timeout, and of nothing after that; the request is retransmitted with doubling intervals only while nothing at all has been received. '
 'Every final response to an INVITE is acknowledged: for 2xx to the address and route set that the response dictates (Contact as target, Record-Route reversed, strict or loose routing) on a new branch, otherwise on the branch of the INVITE to where the INVITE went; the ACK the application asked to send itself is sent when it asks and not before. '
 'A CANCEL is sent only after a provisional response (kept until then), at most once per cancellation request, and a transaction that is over leaves no timer and no table entry behind.',
 ['inputs', 'histories', 'schedules'], 'every transaction state, every response, every order of timers, cancellation and responses',
 'No test drives the transaction layer; retransmission, cancellation and routing interact over all orders of events.',
 ['sippy/SipTransactionManager.py'], [('client transaction state machine', 'SipTransactionManager.newTransaction, incomingResponse, cancelTransaction, sendACK, timerA, timerB, timerC')],
 [('state, teA, teB, teC, cancelPending', 'state of a client transaction', 'SipTransaction')], ['resp_cb', 'userv.send_to'])

prop('C04', 'Dialog requests carry strictly increasing CSeq and stale ones are refused',
 'Within a call leg every request generated carries a CSeq exactly one above the previous one, the dialog\'s Call-ID, local and remote identities, route set and remote target, and a fresh transaction. '
 'A request received in a call leg with a CSeq not above the last one accepted is answered 500 and changes nothing in the call; any other raises the mark to its CSeq. '
 'A request is claimed by a call leg only if its Call-ID and both dialog tags match (and, before the dialog is confirmed, the branch, except for BYE), and an authentication challenge is answered at most once per request and only with credentials configured and a supported algorithm.',
 ['inputs', 'histories'], 'every call-leg state, every request, every history of sequence numbers',
 'No test exercises the user agent; the numbering claim is an invariant over whole histories.',
 ['sippy/UA.py', 'sippy/SipCSeq.py', 'sippy/SipRequest.py'], [('lCSeq/rCSeq bookkeeping', 'UA.recvRequest, UA.genRequest'), ('dialog matching', 'UA.isYours'), ('challenge handling', 'UA.processChallenge, UA.recvResponse')],
 [('rCSeq', 'highest remote CSeq accepted', 'UA'), ('lCSeq', 'next local CSeq', 'UA')], ['tm.newTransaction', 'value returned to the transaction layer'])

prop('C05', 'A call leg ends exactly once and leaves nothing running',
 'Whatever requests, responses, timers and control events arrive, a call leg only moves forward: to connected at most once, then to ended at most once, and once it has failed, disconnected or died it never connects again; the application is told of connection, then disconnection, or of failure, at most once each and never of both failure and connection-less disconnection for the same end. '
 'An established call that is ended from this side sends exactly one BYE (or REFER first when transferring), one ended by the peer answers the BYE with 200, and a call set up by the peer that is given up before being answered gets exactly one final answer. '
 'When a leg ends its call-limit, expiry and no-progress timers are all cancelled and its end time is recorded, not before its start.',
 ['inputs', 'histories', 'schedules'], 'every state of a call leg, every message, timer and control event in any order',
 'No test drives a call leg; the claim is over all event orders.',
 ['sippy/UA.py', 'sippy/UaStateGeneric.py', 'sippy/UaStateConnected.py', 'sippy/UaStateDisconnected.py', 'sippy/UaStateFailed.py', 'sippy/UaStateDead.py', 'sippy/UacStateIdle.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py', 'sippy/UacStateUpdating.py', 'sippy/UacStateCancelling.py', 'sippy/UasStateIdle.py', 'sippy/UasStateTrying.py', 'sippy/UasStateRinging.py', 'sippy/UasStateProgressing.py', 'sippy/UasStateGeneric.py', 'sippy/UasStateUpdating.py'],
 [('state objects', 'Ua*/Uac*/Uas* state classes'), ('callbacks and timers on transition', 'UA.changeState')],
 [('state, *_timer, *_ts', 'state of the leg, its timers and time stamps', 'UA')], ['conn/disc/fail/dead callbacks', 'tm.newTransaction', 'tm.sendResponse'])

prop('C06', 'Call events are delivered in order, at most once, none before its turn',
 'Events a call leg produces are delivered to its controller in the order of their sequence numbers, each at most once; an event older than one already delivered is dropped, never delivered late. '
 'Every event carries a sequence number above all events created before it, and a copy of an event preserves its kind, data, time, origin, reason, extra headers, challenges, warning and hop limit while getting a sequence number of its own. '
 'No event is delivered after the leg has died.',
 ['inputs', 'histories'], 'every queue of pending events of any length and every history of deliveries',
 'No test covers event delivery; the claim quantifies over queues of any length.',
 ['sippy/UA.py', 'sippy/CCEvents.py'], [('ordering by sequence number', 'UA.emitEvent, UA.emitPendingEvents'), ('sequence allocation', 'CCEventGeneric.__init__, getCopy')],
 [('elast_seq', 'sequence number of the last delivered event', 'UA'), ('equeue', 'pending events', 'UA')], ['event_cb'])

prop('C07', 'Call time limits and reported durations are exact',
 'A connected call is ended at the earliest of all its credit limits, counted from the moment of connection, and updating the limits while connected re-arms the timer to the new earliest one; a call with no limit has no such timer. '
 'Before the answer, the no-reply, no-progress and expiry limits each end the attempt if their condition has not been met by then, and progress or answer cancels the ones it satisfies. '
 'The reported talk time is the time from connection to end (or to now), the setup time is the time from start to connection or end, and both are never negative for events in time order.',
 ['inputs', 'histories', 'configurations'], 'every set of limits, every order of time stamps',
 'No test covers time limits; the claim is over all limit values and clock readings.',
 ['sippy/UA.py', 'sippy/UacStateIdle.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py', 'sippy/UasStateIdle.py', 'sippy/UasStateTrying.py', 'sippy/UasStateProgressing.py', 'sippy/Time/MonoTime.py'],
 [('credit timer', 'UA.startCreditTimer, UA.resetCreditTime, UA.credit_expires'), ('accounting', 'UA.getAcct'), ('time arithmetic', 'MonoTime')],
 [('credit_times', 'absolute limits by source', 'UA')], ['TimeoutAbsMono', 'UA.getAcct'])

prop('C08', 'SIP header values survive parsing and serialising',
 'For every header type the stack understands, parsing the text it produces for a value gives back an equal value, and for values received from the network the re-serialised text means the same: no parameter, tag, number or quoted text is lost, reordered in meaning or altered. '
 'Copying a header gives an equal header that shares no mutable state with the original: changing one never changes the other. '
 'Case and compact form of header names do not matter on input, and on output the canonical or compact name is used as asked.',
 ['inputs'], 'every header value over unbounded token, number and text fields',
 'Existing tests parse a handful of literal headers (Reason, Content-Type); the claim is over all field values.',
 ['sippy/SipHeader.py', 'sippy/SipGenericHF.py', 'sippy/SipNumericHF.py', 'sippy/SipCSeq.py', 'sippy/SipRAck.py', 'sippy/SipVia.py', 'sippy/SipReason.py', 'sippy/SipReplaces.py', 'sippy/SipWarning.py', 'sippy/SipContentType.py', 'sippy/SipAllow.py', 'sippy/SipSupported.py', 'sippy/SipCallId.py', 'sippy/SipCiscoGUID.py'],
 [('parse / localStr / getCopy of the header classes', 'Sip*.py')], (), ['str(header)', 'parsed attributes'])

prop('C09', 'SIP URIs and addresses survive parsing, serialising and copying',
 'A SIP, SIPS or TEL URI or a name-addr built from any user, password, host, port, parameters and headers and written out is parsed back to the same parts, with reserved characters escaped and IPv6 hosts bracketed; parsing then writing never changes what the URI denotes. '
 'Copying a URI or an address gives an equal one, of the same scheme, that shares no mutable state with the original. '
 'The transport address computed from a URI is its host and its port, or the default port when it has none.',
 ['inputs'], 'every user, password, host, port, parameter and header text',
 'Existing tests do not cover URI parsing beyond samples; the claim is over all component values.',
 ['sippy/SipURL.py', 'sippy/SipAddress.py', 'sippy/SipAddressHF.py', 'sippy/SipFrom.py', 'sippy/SipTo.py', 'sippy/SipContact.py', 'sippy/SipRoute.py'],
 [('SipURL.parse/localStr/getCopy', 'sippy/SipURL.py'), ('SipAddress.parse/localStr/getCopy', 'sippy/SipAddress.py')], (), ['str(url)', 'url attributes'])

prop('C10', 'Responses, ACKs and CANCELs are derived faithfully from their request',
 'A response generated for a request carries all its Via headers in order, its From, To, Call-ID and CSeq, its Record-Route set, and the status asked for; an ACK or CANCEL generated for an INVITE carries the same request-URI, top Via branch, Call-ID, From, CSeq number and route set with the method replaced, and nothing derived shares mutable state with the request. '
 'Both ends compute the same transaction id for a request and its responses, ACK and CANCEL, and different ids when Call-ID, From tag, CSeq number or branch differ. '
 'A response is sent back to where its request came from: the received address and response port of the top Via when present.',
 ['inputs'], 'every request over all header values and header multiplicities',
 'No test covers message derivation; the claim is over all header contents.',
 ['sippy/SipMsg.py', 'sippy/SipRequest.py', 'sippy/SipResponse.py', 'sippy/SipVia.py'],
 [('genResponse/genACK/genCANCEL', 'sippy/SipRequest.py'), ('getTId/getTIds', 'sippy/SipMsg.py'), ('getTAddr', 'sippy/SipVia.py')], (), ['derived message headers'])

prop('C11', 'Messages are framed and parsed without losing or inventing content',
 'Parsing a message yields its start line, every header line in order (folded lines joined, repeated and comma-separated values kept apart), and the body; serialising it and parsing again gives the same message. '
 'A Content-Length smaller than the data truncates the body to that many octets, one larger than the data or a missing mandatory header makes the message be rejected with a parse error, never accepted with a wrong body; the Content-Length written out always equals the number of body octets written. '
 'Malformed input only ever raises an error; it never yields a half-filled message.',
 ['inputs'], 'every message text',
 'Existing tests do not feed message texts to the parser.',
 ['sippy/SipMsg.py', 'sippy/SipRequest.py', 'sippy/SipResponse.py', 'sippy/MsgBody.py', 'sippy/SipHeader.py'],
 [('SipMsg.__init__, init_body, localStr', 'sippy/SipMsg.py')], (), ['SipMsg attributes', 'str(msg)'])

prop('C12', 'Digest authentication accepts exactly the right password',
 'The digest computed for a challenge is the one RFC 2617/7616/8760 define for the algorithm, quality of protection, nonce, counter, method, URI and body, and the verifier accepts an authorization if and only if its response is that digest for the configured user, password and realm, its algorithm is one it supports and its nonce is current. '
 'An authorization generated from a challenge is accepted by the verifier for the same secret and rejected for any other method, URI, user, password, realm or nonce. '
 'A challenge or authorization survives parsing and serialising with all its parameters.',
 ['inputs'], 'every username, password, realm, URI, method, body, nonce and algorithm',
 'Tests sample a few fixed digests; the claim quantifies over all credentials.',
 ['sippy/SipAuthorization.py', 'sippy/SipWWWAuthenticate.py', 'sippy/Security/SipNonce.py'],
 [('DigestCalcHA1/DigestCalcResponse/verify', 'sippy/SipAuthorization.py'), ('genAuthHF/supportedAlgorithm', 'sippy/SipWWWAuthenticate.py')], (), ['SipAuthorization.verify', 'generated header'])

prop('C13', 'A nonce is valid only if genuine, for its algorithm and for its lifetime',
 'A nonce issued by this server is accepted for every algorithm it was issued for, from the moment of issue until it is 32 seconds old, and never before, later, or for another algorithm. '
 'Any other string, in particular any altered nonce, is rejected without raising an error.',
 ['inputs', 'histories'], 'every nonce string, clock reading and algorithm set',
 'The self test checks one fresh nonce; expiry, tampering and algorithm separation are over all inputs and times.',
 ['sippy/Security/SipNonce.py', 'sippy/Time/clock_dtime.py'], [('HashOracle.emit_challenge/validate_challenge', 'sippy/Security/SipNonce.py')], (), ['HashOracle.validate_challenge'])

prop('C14', 'SDP bodies are preserved through parsing, copying and rewriting',
 'Parsing an SDP body and writing it out keeps every session and media line, in order and unaltered apart from moving session-level connection data into the media sections and removing it where it is redundant when asked to; a body missing a mandatory line raises the SDP error, one with a malformed line raises an error, and where the B2BUA filters or relays media either becomes the SDP error that is turned into a SIP error response. '
 'Copying a body gives an equal one that shares no mutable part with the original. '
 'A media section is reported on hold exactly when its connection address is null or its own direction is sendonly or inactive; payload names come from the rtpmap lines and the static table; the content type of a body is kept.',
 ['inputs'], 'every SDP text over unbounded field values and section counts',
 'Two sample bodies are tested; the claim is over all bodies.',
 ['sippy/SdpBody.py', 'sippy/SdpMediaDescription.py', 'sippy/SdpConnecton.py', 'sippy/SdpOrigin.py', 'sippy/SdpMedia.py', 'sippy/SdpGeneric.py', 'sippy/MsgBody.py', 'sippy/MultipartMixBody.py'],
 [('SdpBody.parse/localStr/getCopy', 'sippy/SdpBody.py'), ('SdpMediaDescription', 'sippy/SdpMediaDescription.py')], (), ['str(body)'])

prop('C15', 'Failed call attempts are retried over the routes in order and only then given up',
 'When an outgoing attempt fails with a code that allows hunting and routes are left, the next route in the configured order is tried, with that route\'s own settings; otherwise the failure is passed to the caller unchanged. '
 'Every route is tried at most once per call, never after the caller has gone, connected or been answered, and never when the failing code is among the route\'s stop codes; a route that cannot be used is left out, and the time limit of a group of routes bounds the attempts of that group. '
 'A call is always in exactly one of its states, and whichever side ends it, the other side is ended too and the call is removed from the list of calls once both legs are dead.',
 ['inputs', 'histories', 'configurations'], 'every list of routes, every sequence of outcomes',
 'No stable test covers call routing in the controller.',
 ['sippy/b2bua.py'], [('CallController.recvEvent, rDone, placeOriginate, aDead, oDead', 'sippy/b2bua.py')],
 [('state, routes, uaA, uaO', 'state of a call', 'CallController')], ['uaO events', 'ccmap'])

prop('C16', 'A routing rule means what it says and its limits can only be lowered',
 'A routing rule text is parsed into number, host, transport, credentials, timers, credit and flags exactly as written, a malformed rule is rejected with an error, and a copy of a rule is equal and independent. '
 'Customising a rule for a call applies the caller\'s number, time limits and parameters without altering any other call\'s rule, and the talk time it allows is never above the maximum configured and is the default one when the rule names none. '
 'The set of addresses of a route and its outbound settings are the rule\'s own.',
 ['inputs', 'configurations'], 'every rule text and every per-call parameter set',
 'Route tests are not in the reliable set; the claim is over all rules.',
 ['sippy/B2B/Route.py'], [('B2BRoute.__init__/customize/getCopy', 'sippy/B2B/Route.py')], (), ['B2BRoute attributes'])

prop('C17', 'Requests are admitted to the B2BUA only under its admission rules',
 'A new call is accepted only from an address that is allowed (when an access list is configured), with a hop count left, and only when the server is not draining; otherwise it is answered 403, 483 or 503 and nothing is routed or left in the list of calls. '
 'An in-dialog request of no known dialog is answered 481, NOTIFY and PING are answered 200, any other method 501, and REGISTER and SUBSCRIBE are handed to the proxy when one is configured; every accepted call is entered in the list of calls. '
 'When authentication is configured, a call without valid credentials is challenged or refused and never routed.',
 ['inputs', 'configurations'], 'every request and every configuration',
 'No stable test covers the B2BUA request entry point.',
 ['sippy/b2bua.py'], [('CallMap.recvRequest', 'sippy/b2bua.py')], [('ccmap', 'list of calls', 'CallMap')], ['value returned to the transaction layer'])

prop('C18', 'RTP proxy commands are executed in order, one at a time, each answered once',
 'Commands submitted to a media session are sent to the RTP proxy one at a time, in the order they were submitted, and each one\'s callback is called at most once, with the answer to that command and to no other; none is lost or overtaken whatever the callbacks do. '
 'The text of a command contains exactly the call id, tags, addresses, flags and options asked for, and parsing the text of a command gives the command back. '
 'Once a session is deleted no further command except the deletion itself is sent for it.',
 ['inputs', 'histories', 'schedules'], 'every sequence of commands and answers',
 'Only the client internals have a self test; ordering is over all schedules.',
 ['sippy/Rtp_proxy/Cmd/sequencer.py', 'sippy/Rtp_proxy/cmd.py', 'sippy/Rtp_proxy/session.py'],
 [('Rtp_proxy_cmd_sequencer', 'sippy/Rtp_proxy/Cmd/sequencer.py'), ('Rtp_proxy_cmd', 'sippy/Rtp_proxy/cmd.py')], [('cmdq, inflight', 'queued and outstanding commands', 'Rtp_proxy_cmd_sequencer')], ['rtp_proxy_client.send_command'])

prop('C19', 'Media sessions rewrite SDP to the relay and release it completely',
 'For every offer or answer that passes through a media session, each active media section\'s address and port are replaced by the relay address and port the RTP proxy returned for that very section and side, sections with port zero keep port zero, and nothing else of the body is changed except what the relay is configured to change (own origin line, rtcp attribute, marking of a stream on hold, packet time, WebRTC attributes); the body is handed on only after all sections are resolved, and an RTP proxy error or an unparsable answer is reported as an error. '
 'The answers of the RTP proxy are interpreted exactly: port, address and family, and a negative or malformed answer is an error. '
 'Deleting a session asks the RTP proxy to delete every stream it ever created, exactly once.',
 ['inputs', 'histories'], 'every body, every answer of the RTP proxy in any order',
 'No test covers session handling.',
 ['sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Session/side.py', 'sippy/Rtp_proxy/Session/update.py'],
 [('Rtp_proxy_session.delete', 'sippy/Rtp_proxy/session.py'), ('_rtpps_side', 'sippy/Rtp_proxy/Session/side.py'), ('update_params.process_rtpp_result', 'sippy/Rtp_proxy/Session/update.py')], (), ['rewritten SDP', 'commands sent'])

prop('C20', 'Timers fire in due order, never early, and never once cancelled',
 'A timer is never run before its time, timers due together run in order of their due time, a one-shot timer runs exactly once and a repeating timer runs once per period the number of times asked for; a cancelled timer never runs, even when cancelled by another one firing in the same round. '
 'An error in one callback affects neither the other timers nor the loop. '
 'Calls handed over from other threads run exactly once, in the order they were submitted.',
 ['inputs', 'histories', 'schedules'], 'every set of timers, every clock reading, every order of cancellations',
 'The self test runs a few timers; the claim is over all sets and interleavings.',
 ['sippy/Core/EventDispatcher.py', 'sippy/Time/Timeout.py'], [('EventDispatcher2.dispatchTimers, regTimer, dispatchThreadCallbacks', 'sippy/Core/EventDispatcher.py')],
 [('tlisteners, slisteners, tcbs', 'timers and cross-thread calls', 'EventDispatcher2')], ['callbacks'])

prop('C21', 'Only valid configuration values are accepted and stored with their type',
 'Every configuration option is accepted only if its text is a valid value of the option\'s type and within the option\'s limits, is stored as a value of that type equal to the text, and anything else, including an unknown option, is rejected leaving the configuration unchanged. '
 'Reading an option gives the value last accepted for it. '
 'Writing the configuration out and reading it back gives the same values.',
 ['inputs', 'configurations'], 'every option and every value text',
 'The self test parses one sample file.',
 ['sippy/MyConfigParser.py'], [('MyConfigParser.check_and_set', 'sippy/MyConfigParser.py')], (), ['MyConfigParser values'])

prop('C22', 'Each call attempt is accounted exactly once with its true times and cause',
 'For every call leg that is accounted, at most one start and at most one stop record is sent, the stop after the start, and none after the leg is gone, whatever combination of connection, disconnection and failure is reported. '
 'Each record carries the call\'s identity, direction, numbers and addresses, and times and durations computed from the events themselves, and the disconnect cause derived from the final status code by the fixed SIP-to-Q.850 mapping. '
 'Interim records, if configured, are sent only between start and stop.',
 ['inputs', 'histories'], 'every order of connection, disconnection and failure reports and every status code',
 'No test covers accounting.',
 ['sippy/RadiusAccounting.py'], [('RadiusAccounting.conn/disc/asend', 'sippy/RadiusAccounting.py')], [('sent state', 'which records were sent', 'RadiusAccounting')], ['radius_client.do_acct'])

prop('C23', 'A stateful proxy forwards each request once and returns its responses unchanged',
 'A request passing through the stateful proxy is forwarded to its destination with one Via of this proxy added on top, Max-Forwards one less or added, a Path if configured, and everything else of the message preserved; each response received for it is returned to where the request came from with exactly that Via removed. '
 'A request that has no hops left is refused, and responses for transactions that are over are dropped.',
 ['inputs', 'histories'], 'every request and response',
 'No test covers the proxy.',
 ['sippy/StatefulProxy.py'], [('StatefulProxy.recvRequest/recvResponse', 'sippy/StatefulProxy.py')], (), ['tm.newTransaction', 'tm.sendResponse'])

prop('C24', 'A registration is refreshed in time and challenges are answered a bounded number of times',
 'A registration agent always has exactly one attempt outstanding or one timer pending until it is stopped: a success schedules the next attempt no later than the end of the granted lifetime, a failure schedules a retry, and a stopped agent sends nothing more. '
 'A challenge is answered with the configured credentials and the challenger\'s own nonce, at most three times in a row, further challenges to the same attempt count as failure, and each attempt carries a higher CSeq in the same Call-ID. '
 'The application is told of each success and each failure exactly once.',
 ['inputs', 'histories'], 'every sequence of responses and every granted lifetime',
 'No test covers the registration agent.',
 ['sippy/SipRegistrationAgent.py'], [('SipRegistrationAgent.doregister/gotresponse', 'sippy/SipRegistrationAgent.py')], (), ['tm.newTransaction', 'callbacks'])

prop('C25', 'RTP media is sent complete and in order, and shared media workers are counted',
 'Every frame of audio submitted to a media stream is sent in the order submitted, in packets of exactly the size of the codec and packet time and one per packet time, with only silence filling up the last packet; a period without data advances the clock of the stream by one packet, nothing is sent after the end of the stream, and the counters agree with what was sent. '
 'Audio received is handed on complete, in the order of its sequence numbers, in equal chunks, with silence for what was lost; packets from elsewhere and packets that cannot be parsed are ignored. '
 'Media parameters have one canonical form, equal parameters compare equal, and an endpoint that is updated sends to and accepts from the new target only. '
 'A shared media worker exists exactly as long as it has users, and an endpoint that has been shut down, or could not be made, holds no writer, channel or worker.',
 ['inputs', 'histories', 'schedules'], 'every stream of frames, every order and loss of packets, every set of parameters and every order of acquire and release',
 'Tests cover a few parameter sets and one endpoint; the properties are over all streams, histories and failures.',
 ['sippy/Rtp/OutputWorker.py', 'sippy/Rtp/Ingest.py', 'sippy/Rtp/Params.py', 'sippy/Rtp/Singletons.py', 'sippy/Rtp/EPoint.py', 'sippy/Rtp/Handlers.py', 'sippy/Rtp/Core/AudioChunk.py'],
 [('output worker', 'sippy/Rtp/OutputWorker.py'), ('input stream', 'sippy/Rtp/Ingest.py'), ('RTPParams', 'sippy/Rtp/Params.py'), ('worker singletons', 'sippy/Rtp/Singletons.py')], (), ['packets sent', 'chunks handed on'])

prop('C26', 'Queries to a helper process are answered once, with their own answer',
 'Each query given to an external helper (the RADIUS client) is written to one living helper as exactly its lines, ended by an empty line, and its callback is called exactly once, in the thread of the event loop, with the answer to that very query and its own parameters, unless it was cancelled before a helper took it; whatever other threads do meanwhile, no query is lost, asked twice or answered with the answer to another, and a helper that has died is replaced. '
 'A missing or malformed answer is reported as a failure rather than lost, and an exception in a callback goes no further. '
 'The RADIUS attributes of a query are each one line, with nothing in a value able to end it, with vendor attributes written as RADIUS wants them; an authorisation request tells who calls whom, from where, with the digest credentials when all of them were given and by address otherwise; and the attributes of the answer are handed on in order with the prefixes removed.',
 ['inputs', 'histories', 'schedules'], 'every query and attribute value, every answer and death of a helper, every order of queueing, cancelling, taking and shutting down',
 'The only test of this part, a main function, asks one query of /bin/cat.',
 ['sippy/External_command.py', 'sippy/Radius_client.py', 'sippy/RadiusAuthorisation.py'],
 [('worker thread', 'External_command._Worker.run'), ('work list under a condition', 'External_command.process_command, shutdown'), ('attributes', 'Radius_client._prepare_attributes, process_result'), ('authorisation', 'RadiusAuthorisation.do_auth')], (), ['lines written to the helper', 'callbacks'])

prop('C27', 'Datagrams are sent and received once each, whatever the socket does',
 'Each datagram given to a UDP server is handed to its socket as it is, to the address it is for, in the order it was given, again and again with a pause between while the socket is busy, until the socket takes it or it is known never to; one that cannot be sent (an unknown host, an error, a socket that stays busy) holds up nothing but itself. '
 'Each datagram that the socket receives is handed to the application once, in order, with the address it came from and the time at which it came; an error of the socket does not end the receiver unless the socket is closed, what the application raises goes no further, and after the server has been shut down the application is not called any more. '
 'A server has the address, the options of its socket and the number of workers it was asked for, the allocator of ports is asked until a port is free, and the address the server tells is the one it has.',
 ['inputs', 'histories', 'faults'], 'every datagram, address and port, every sequence of results and errors of the socket, every configuration',
 'The tests of this part send a few datagrams over the loopback, where the socket never fails.',
 ['sippy/Udp_server.py', 'sippy/Network_server.py'],
 [('sending thread', 'Udp_server.AsyncSender.run'), ('receiving thread', 'Udp_server.AsyncReceiver.run'), ('delivery', 'Network_server.handle_read'), ('setup', 'Udp_server.__init__, Udp_server_opts.getSockOpts, Network_server_opts.getCopy')], (), ['sendto and recvfrom on the socket', 'calls of the data callback'])

prop('C28', 'An RTP proxy is used only while it answers, and is checked again when it does not',
 'A proxy is reached at the address and by the transport the configuration names. It is not used for calls before it has answered the check of its version with the version that is known and has answered which of its capabilities it has, and only capabilities that it said it has are taken to be there. '
 'While it is in use exactly one heartbeat is outstanding or due about a second later, whatever the answers contain; when a heartbeat, or over UDP any command after its repetitions, is not answered, the proxy is out of use at once and its version is checked about a minute later, again and again until it answers. '
 'A call gets one of the proxies in use, each as likely as any other, and no session at all when there is none. After a proxy has been shut down it is asked nothing more and no timer of its own remains, whatever answers are still on their way.',
 ['inputs', 'histories', 'faults'], 'every address of a proxy, every answer or missing answer at every point of the check, every set of proxies in use',
 'The tests talk to one proxy which always answers.',
 ['sippy/Rtp_proxy/client.py', 'sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Client/udp.py'],
 [('watching', 'Rtp_proxy_client.version_check, heartbeat, go_online, go_offline and the replies'), ('capabilities', 'Rtpp_caps_checker'), ('choice', 'Rtp_proxy_session.__init__'), ('address', 'Rtp_proxy_client.__init__')], [('online', 'the proxy may be used for calls', 'Rtp_proxy_client.online'), ('caps_done', 'what the proxy can do is known', 'Rtp_proxy_client.caps_done'), ('shut_down', 'the proxy has been shut down', 'Rtp_proxy_client.shut_down')], ['commands sent to the proxy', 'timers', 'proxy of a new session'])

prop('C29', 'Commands on control connections are carried out once, in order, and answered completely',
 'The control socket is where the configuration says; each connection made to it is served, except that where there is a list of addresses a connection from any other is closed unheard, and shutting down leaves no file behind. Each line received is one command, handed over once, in order and in the main thread however the stream cuts it; a connection that the peer closes or breaks, or on which something other than text arrives, is taken down; a command that fails ends its own connection only. '
 'What is sent on a connection arrives complete and in order however little the socket takes at a time; a connection closed by the application is taken down after all that was sent before, and nothing is sent after that. '
 'The commands of the B2BUA do what they say and only to the calls they name: the list tells each call once with its state and the address of the other end of each leg, d ends the calls with the given id or all of them, r tells the call with the given number since when and which of its media have stopped, lt and llt tell the transactions, or those a minute old.',
 ['inputs', 'histories', 'faults'], 'every command text and call id, every division of the stream, every partial send and error of the socket',
 'No test connects to the control socket.',
 ['sippy/CLIManager.py', 'sippy/B2B/SimpleAPI.py', 'sippy/b2bua.py'],
 [('reading thread', 'CLIManager._CLIManager_r.run'), ('writing thread', 'CLIManager._CLIManager_w'), ('connections', 'CLIConnectionManager, _Acceptor'), ('commands', 'B2BSimpleAPI.recvCommand'), ('list of calls', 'CallMap.listActiveCalls, discAll')], (), ['bytes on the control connection', 'calls disconnected'])

prop('C30', 'Bodies of several parts are carried through as they are',
 'A body of type multipart/mixed is read whatever its parts contain and however its boundary is told (quoted or not, spaces, other parameters, upper or lower case), with anything before the first part and after the last, and parts without headers. Sent on, it has the same parts in the same order, each with its type, its other headers and its content, delimited by the boundary that the Content-Type of the message tells, and the length that the message tells is its length. '
 'A body put together by the application is sent likewise, whether or not its parts end a line, with the address that is used for sending in the origin of its session descriptions and in nothing else. Copies tell the same and share nothing with the original: changing either, its boundary or its parts leaves the other as it was.',
 ['inputs', 'histories'], 'every content and set of headers of the parts, every boundary, every change of a copy',
 'One test parses one body and prints it.',
 ['sippy/MultipartMixBody.py', 'sippy/MsgBody.py', 'sippy/SipContentType.py', 'sippy/SipMsg.py'],
 [('parser and printer', 'MultipartMixBody.__init__, __str__, localStr'), ('boundary', 'MultipartMixBody.setBoundary, SipContentType.parse'), ('copies', 'MsgBody.getCopy, MultipartMixBody.getCopy')], (), ['body and Content-Type of messages'])

prop('C31', 'Only the codecs that the operator allows get through',
 'With a list of allowed payload types, every session description that a side of a call sends, first or later, is passed on with only those formats of its streams over RTP that are on the list, by number or by the name the description itself maps to a number, in their order, and without the mapping and parameters of the ones removed; everything else in it, streams over other transports and bodies that are not session descriptions are untouched. That holds for descriptions that are parts of other bodies as well. '
 'A description that has a stream with nothing allowed, or cannot be read, is refused and nothing of it is passed on. What is left goes through the RTP proxy as it would without the list; without a list nothing is filtered.',
 ['inputs'], 'every list, every set of formats and names, every kind of body, both sides of the call',
 'No test configures a list of payload types.',
 ['sippy/b2bua.py', 'sippy/SdpMediaDescription.py', 'sippy/MyConfigParser.py'],
 [('filter', 'CallController.filter_SDP'), ('names', 'SdpMediaDescription.getPTbyName'), ('attributes', 'SdpMediaDescription.optimize_a')], (), ['session descriptions of the other leg'])

prop('C32', 'The SIP log is complete and in order; signals reach every handler',
 'Every message logged at or above the configured level, and none below it, is written exactly once, in the order logged, with its time (of the day or since the start, to the millisecond), its call and the application (and process), before the shutdown of the log returns, whatever is logged while the writer works or waits. A message that cannot be written is the only one lost; file systems without locks are no obstacle, and no lock is kept. When the writer cannot keep up the newest messages are kept, in order and bounded in number, and no request to reopen is lost: what is logged after a reopening goes to the file that is there by then. '
 'A signal is acted upon in the main thread and not in the signal handler, by every handler registered for it and by the one there was before, whatever any of them raises; a cancelled handler hears nothing more and the one before it is back. SIGUSR1 reopens the log until it is shut down.',
 ['schedules', 'histories', 'inputs'], 'every interleaving of logging, reopening, writing and shutting down; every place of an error of the disk; every message; every signal number',
 'Tests log a few lines to stderr: the writer thread, its errors, discards and reopenings are not sampled.',
 ['sippy/SipLogger.py', 'sippy/Signal.py'],
 [('writer', 'AsyncLogger.run'), ('queue', 'SipLogger.write_logfile'), ('signals', 'Signal.signal_handler')], (), ['file system', 'signals'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
