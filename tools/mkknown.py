"""writes known-findings.json"""
import json, os
F = []
FIX = []


def find(prop, contract, obligation, what, **when):
    F.append({'property': prop, 'contract': contract, 'obligation': obligation, 'when': when, 'what': what})


def fix(prop, commit, what):
    FIX.append('fixed: property=%s %s %s' % (prop, commit, what))


find('C05', 'ua_late_offer', 'late-answer-accepted',
     'a call placed without an offer, 2xx with an offer: the transaction layer has acknowledged and dropped the transaction before '
     'the call leg asks it to wait (tr.uack), so the answer or a hang-up raises AttributeError in sendACK and the answer is never sent', offer=True)

find('C09', 'url_escaped_semicolon', 'user-kept',
     'an escaped semicolon in the user part (sip:a%3Bb@host) is written back unescaped, so a user name turns into a user name and a parameter')

find('C14', 'sdp_repeated', 'kept',
     'of lines that may be repeated in a session (b=, t=, r=, e=, p=) or in a media section (b=, c=) only the last one is kept')

find('C18', 'stream_fragments', 'whole-answer',
     'over a stream transport an answer of the RTP proxy that arrives in more than one piece is taken as several answers: the commands '
     'that follow are handed the answers of earlier ones', cut=True)

fix('C01', '826214c', 'an unparsable request was dropped instead of answered 400')
fix('C03', '2599115', 'extra headers of a CANCEL deferred until a provisional response were lost')
fix('C10', '9766ad8', 'the ACK of a non-2xx response did not carry the Route headers of the INVITE')
fix('C05', '1842b81', 'call timers left running when the remote SDP of a call being set up is refused')
fix('C05', 'ba17558', 'call timers left running when the caller cancels')
fix('C05', '910c21e', 'redirecting an established call raised, the target was looked up in the wrong place')
fix('C05', '10e1b7e', 'BYE sent for each provisional response of a REFER')
fix('C05', '07a130e', 'session update after a failed one raised, the event was lost')
fix('C04', 'ed01efe', 'challenge to a keep-alive re-INVITE raised instead of being answered')
fix('C05', '1360209', 'ring or redirect event while the peer updates the session ended up in a bogus state')
fix('C04', '7a5cae3', 'the challenges of a 407 response were not passed on (TypeError)')
fix('C05', 'ab1e6a3', 're-INVITE without a body while there is no remote SDP raised and was left unanswered')

fix('C09', 'c79f167', 'the copy of a sips: URI became sip:, and shared its headers with the original')
fix('C08', '415bcf7', 'copying a Warning header that has not been parsed raised')
fix('C08', 'debd802', 'blanks around the parameters of Replaces made from-tag/to-tag unknown')
fix('C14', '54e5de7', 'the copy of a body that has not been parsed lost its content type')
fix('C09', '4aed5a2', 'a tag after a blank was stored under the name " tag" and not found')
fix('C09', 'b3b6960', 'sips: and tel: addresses without brackets were refused')
fix('C09', 'f3b989a', 'a blank before the parameters of an address without brackets became part of the host')
fix('C11', 'f65811b', 'characters such as U+0085 or form feed inside a header ended the line')
fix('C08', 'e967a1a', 'compact form of the Supported header was not recognised')
fix('C08', '1f54680', 'escaped quotes in the text of a Reason header were dropped or cut the text')
fix('C11', 'a0b4c3c', 'Content-Length was counted in characters, not in octets')
fix('C12', 'ca89e28', 'the copy of a challenge shared the list of qop values')
fix('C13', 'ea4feb0', 'altered nonces (characters outside of the alphabet, extra padding) were accepted')
fix('C12', '040992b', 'an authorization with an unknown algorithm raised KeyError instead of being refused')
fix('C12', '20af1a9', 'a comma inside a quoted parameter of an authorization (user, realm, URI) made it unparsable')
fix('C11', 'c9e6a7b', 'a message without a Call-ID was accepted, and failed later with KeyError')
fix('C11', '88ab29a', 'a negative Content-Length cut that many octets off the body')
fix('C11', '9dff269', 'a display name after a comma and a blank got its quotes doubled')

fix('C14', '656c434', 'characters such as U+0085 or form feed inside a line of a body ended the line')

fix('C16', '01eabbe', 'the talk time granted by RADIUS was not applied to routes without a credit time of their own: the call was unlimited')
fix('C15', '3754067', 'routing a call back to a SIP user agent (sip-ua) raised, the call hung')
fix('C18', '8ec86f2', 'a command for a media session already deleted raised AttributeError')
fix('C19', '12f354d', 'copying a side of a media session that is not created yet failed')
fix('C19', '76ce370', 'a malformed answer of the RTP proxy raised instead of being reported to the user agent, the call hung')
fix('C18', '203d1be', 'an error of the RTP proxy when playing, copying or recording raised and the caller was never told')
fix('C18', 'ee1e6c2', 'options of an RTP proxy command were changed when the command was parsed and printed')
fix('C19', 'c922e36', 'a body with nothing to relay was handed on to a callback with wrong parameters or never')
fix('C18', '97a04b0', 'a command object without a new line at the end was sent on a stream and never answered')
fix('C24', 'e84c761', "a registration challenged by a proxy (407) was answered with Authorization instead of Proxy-Authorization")
fix('C24', '9ff6e21', 'a reply with an unreadable lifetime or challenge raised and the agent never registered again')
fix('C24', 'c7f65e9', 'the lifetime asked for was never sent in the REGISTER')
fix('C23', '662a617', 'the proxy handed on failure responses without their body')
fix('C22', '1632cd1', 'interim accounting records had times computed from different clocks')
fix('C22', 'a62be4a', 'a connection reported after the end of a leg sent a start record and interim records for ever')
fix('C15', '55330ae', 'the time limit of a group of routes raised and had no effect')
fix('C15', 'd51d358', 'the 401 response to a call refused by RADIUS had no challenge')
fix('C15', '16d3473', 'a call without hops left was never removed from the list of calls')
fix('C21', 'c59d02b', 'configuration files could not be read with current versions of Python')
fix('C15', '0c24c8b', 'a call was never answered when RADIUS returned a route or credit time that could not be used')
fix('C25', '7793a74', 'resampled audio that did not fill a packet tripped an assertion and nothing was sent any more')
fix('C25', '268b886', 'the update of a media endpoint to a target of another address family raised')
fix('C25', '5991cee', 'closing the channel of a media endpoint that could not be made raised, hid the error and leaked the port')
fix('C25', 'b4192f8', 'silence of the G.722 codec was not silence')
fix('C26', '5840bfa', 'a query to a helper that had died was never answered')
fix('C26', '108ba44', 'a malformed answer of the RADIUS client was never reported')
fix('C26', '8b4d049', 'a line break in an attribute ended the attribute')
fix('C26', 'bdb6a39', 'a quote in an attribute ended its value, and what followed was taken for further attributes')
fix('C27', 'f275b17', 'the flags and the number of workers asked for were lost when the options of a UDP server were copied')
fix('C27', 'abf94b3', 'an unexpected error of the socket ended the thread that receives datagrams')
fix('C27', 'ecd598a', 'a datagram that was to be sent later over IPv6 was refused when its time came')
fix('C28', '6cd7a0a', 'a malformed line in the answer to a heartbeat raised, no further heartbeat was sent and the proxy stayed in use for ever')
fix('C29', '7425b61', 'the commands l (with calls), lt, llt and d * raised and ended the connection')
fix('C29', 'bbdd296', 'the list of calls told the address of the caller for the callee')
fix('C29', 'c340b67', 'a control connection reset by the peer was never taken down')
fix('C05', '7cab12d', 'a re-INVITE without a body was never answered when the last body was not a session description')
fix('C19', '5e5e35c', 'a multipart body in a call that uses the RTP proxy raised and the message was lost')
fix('C30', '3db706d', 'spaces around the parameters of Content-Type were taken for part of them')
fix('C30', '4c8b05b', 'multipart bodies with a quoted boundary, a preamble, an epilogue or a part without headers were not read')
fix('C30', '8d588a8', 'the headers of the parts of a multipart body and the boundary of its copies were lost')
fix('C30', 'e29f618', 'the delimiter after a part that did not end a line was appended to that line')
fix('C31', '1c87a79', 'a body that was not SDP raised in the codec filter and the call was not answered; SDP in multipart bodies was not filtered')
fix('C31', '89b7f3b', 'formats of text and other media over RTP were never allowed')
fix('C31', '5238c70', 'a malformed rtpmap raised in the codec filter and the call was not answered')
fix('C32', 'eccabcb', 'the writer of the log could start before it knew the name of the file: the messages up to the first error, and that one, were lost')
fix('C32', 'dff81b7', 'a request to reopen the log was dropped when messages were discarded, so the rotated file was written for ever')
fix('C32', 'c561aab', 'on file systems without locks every message was dropped (the error number was compared in a way that never matched)')
fix('C32', '49e50b5', 'messages in the log file bore the time of their writing, not of their logging')

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json'), 'w') as f:
    json.dump({'findings': F, 'fixed': FIX}, f, indent=1)
    f.write('\n')
