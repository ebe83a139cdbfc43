"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Bolt frames encode to the documented layout and decode to what was encoded",
     "Every request or response whose fields are in range encodes to exactly the byte layout documented for Bolt v1 (field order, widths, signedness, class name, length-prefixed header strings, content), the three length fields equal the lengths of the parts that follow, and decoding those bytes yields the same field values, header map and content. "
     "A package whose fields do not fit the wire format is refused with an error and never encoded into a different frame. "
     "Requests, responses, failure responses and heartbeats built by the library carry the type, command code, id, timeout, status and content they were built for.",
     ["inputs"], "all combinations of a finite alphabet of header maps, contents, ids, timeouts, types, command codes, codecs and statuses, including every boundary of each field width",
     "test_bolt_package round-trips two packages and never checks the bytes against an independent description of the layout or the field boundaries.",
     ["anthunder/protocol/_package_base.py", "anthunder/protocol/_request_pkg.py", "anthunder/protocol/_response_pkg.py", "anthunder/protocol/_sofa_header.py", "anthunder/command/heartbeat.py", "anthunder/command/fail_response.py"],
     [("struct format + validate()", "BoltRequest.to_stream / BoltResponse.to_stream"), ("length-prefixed strings", "SofaHeader.to_bytes / from_bytes")],
     observe=["to_stream()", "from_stream()", "bolt_header_from_stream()", "bolt_content_from_stream()"])

prop("C02", "Decoding arbitrary bytes terminates with the exact package or a protocol error",
     "For every byte string, decoding a frame or a header block terminates and either returns exactly the package the documented format assigns to it (a Java null string, length -1, reads as an empty string) or raises a protocol error. "
     "Truncated, over-long or inconsistent input, including a header block with a dangling key, a negative or too large length, or text that is not UTF-8, is always rejected with a protocol error, never accepted as something shorter and never another kind of exception or an endless loop.",
     ["inputs"], "every truncation, extension and single-byte corruption of reference frames, and every short byte string over a small alphabet as header block",
     "The tests decode two well-formed captured frames; rejection paths are marked 'pragma: no cover'.",
     ["anthunder/protocol/_package_base.py", "anthunder/protocol/_sofa_header.py", "anthunder/protocol/exceptions.py"],
     [("bounds checks while walking the header block", "_bytes_to_str"), ("DecodeError wrapping", "BoltPackage.bolt_content_from_stream")],
     observe=["from_stream()", "SofaHeader.from_bytes()"])

prop("C03", "Request ids are distinct and in range for all threads and across wrap-around",
     "No two requests created by one process, from any number of threads, carry the same request id until the whole range of 2^31 ids has been used, and every id lies between 0 and 2^31-1 and so fits the wire field. "
     "This includes the point where the counter passes its maximum and restarts at zero. Drawing ids keeps nothing in memory, however many requests a process makes.",
     ["schedules", "configurations"], "all interleavings (bounded preemptions) of 2-3 threads creating requests, for start values at and around the wrap-around point",
     "test_request_id draws one id.",
     ["anthunder/helpers/request_id.py", "anthunder/protocol/_request_pkg.py", "anthunder/command/heartbeat.py"],
     [("shared id iterator", "anthunder/helpers/request_id.py"), ("id drawn per request", "BoltRequest.new_request")],
     state=[("RequestId", "process-wide id iterator", "anthunder/helpers/request_id.py")],
     observe=["BoltRequest.new_request().request_id", "HeartbeatRequest.new_request().request_id"])

prop("C04", "The asyncio client gives every caller the response to its own request",
     "Whatever the order, timing, fragmentation or duplication in which responses arrive, and whatever late, unsolicited or heartbeat responses are mixed in between, each concurrent call returns exactly the content of the successful response that carries the request id it sent, and a call whose response was delivered in time does not fail. "
     "No call ever returns content addressed to another request.",
     ["schedules", "histories"], "all delivery orders, split points and interleavings of unsolicited frames for up to 3 concurrent calls from threads and futures",
     "test_aio_client runs 10 calls against one real server: one lucky order, whole frames, no foreign frames.",
     ["anthunder/client/aio_client.py"],
     [("request_id -> event and request_id -> response maps", "AioClient._send_request / _recv_response / invoke")],
     state=[("request_mapping", "calls waiting for a response", "AioClient"), ("response_mapping", "responses not yet taken", "AioClient")],
     observe=["AioClient.invoke_sync", "AioClient.invoke_async future"])

prop("C05", "A failed asyncio call ends with an error: no hang, no silent or wrong success",
     "Every two-way call of the asyncio client ends: a synchronous call returns or raises within its timeout, and a future completes once its response has arrived, its connection is lost or its request cannot be sent. "
     "It yields content only if a success response for it was received; an error status, an undecodable response, a frame that is no response, a refused or lost connection or a timeout makes it raise - a library error for an error status or a request that could not be sent - and never yields None, another value or an internal lookup error.",
     ["fault_sequences", "schedules"], "all placements of a refused dial, connection reset or close, error status, undecodable or missing response in histories of up to 3 calls, with all timer orders",
     "No test lets a call fail.",
     ["anthunder/client/aio_client.py", "anthunder/exceptions.py"],
     [("error handling of the receive loop", "AioClient._recv_response"), ("send retry", "AioClient._send_request"), ("timeout", "AioClient.invoke_sync")],
     observe=["AioClient.invoke_sync", "AioClient.invoke_async future"])

prop("C06", "The asyncio client shares one connection per address and recovers after loss",
     "While a connection stays healthy, all concurrent calls to one address use a single connection, also when they start before it is established, and calls for different addresses use different ones. "
     "After a connection is lost or a dial is refused, the next call dials again and succeeds as soon as the server accepts and answers, and several calls failing at once do not disturb the connection that replaces the lost one. "
     "A dial that hangs holds up only calls to its own address, and the client closes its end of a connection the server has closed.",
     ["schedules", "fault_sequences"], "all interleavings of up to 3 calls with dial completion, connection loss at every point and back pressure",
     "Tests use one healthy server and do not count connections.",
     ["anthunder/client/aio_client.py"],
     [("fast path and per-address dial lock", "AioClient._get_connection"), ("drop and redial on send failure", "AioClient._send_request")],
     state=[("connection_mapping", "address -> live connection", "AioClient"), ("_pending_dial", "address -> dial lock", "AioClient")],
     observe=["connections accepted by the server", "call results"])

prop("C07", "Request frames reach the wire whole, once, unmixed and at the right address",
     "Everything the asyncio client writes to a connection is a sequence of complete request frames, never interleaved or cut, whatever the back pressure and whatever the number of concurrent calls. "
     "On a healthy connection each call sends exactly one frame, addressed to the connection configured for its interface (an explicit mapping, a bare host with the default port, or the mesh address), carrying the caller's content, interface, method, headers and timeout.",
     ["schedules", "configurations", "inputs"], "all interleavings of up to 3 calls with write-buffer pause/resume events, over all address configurations",
     "Tests never trigger back pressure and never look at the bytes on the wire.",
     ["anthunder/client/aio_client.py", "anthunder/client/base.py", "anthunder/protocol/_sofa_header.py"],
     [("single write per frame", "AioClient._send_request"), ("address lookup", "_BaseClient._get_address")],
     observe=["bytes received by the server"])

prop("C08", "The asyncio client keeps nothing of a call once the call is over",
     "When no call is in progress - every call has returned, raised or timed out - the client holds no per-call task, package or waiter, whatever responses were late, duplicated, unsolicited or missing. "
     "Memory and pending work therefore do not grow with the number of past calls.",
     ["histories", "fault_sequences"], "all histories of up to 3 calls with each outcome (success, error status, timeout, late or duplicate answer, connection loss, oneway)",
     "One test bounds the number of tasks after ten successful calls; failure paths are never run.",
     ["anthunder/client/aio_client.py"],
     [("removal from the maps on completion", "AioClient.invoke / _recv_response")],
     observe=["tasks pending on the client's loop", "live package objects"])

prop("C09", "Heartbeats keep flowing and are always answered",
     "An asyncio client attached to a mesh sends a heartbeat to the mesh every 30 seconds for as long as it lives, whatever happened to earlier heartbeats (answered, answered with an error, unanswered, connection refused or lost), and each carries a fresh id; a healthy heartbeat exchange is reported as healthy. "
     "Both listeners answer every well-formed heartbeat request with a success heartbeat response carrying its id; the asyncio listener also between and during the ordinary calls of a connection (the threaded listener serves one request per connection).",
     ["fault_sequences", "schedules"], "all sequences of up to 3-4 heartbeat outcomes on the client side; all orders of heartbeats and requests on the server side",
     "The heartbeat test sends one frame to the server; the client's timer (30 s) never fires in a test.",
     ["anthunder/client/aio_client.py", "anthunder/command/heartbeat.py", "anthunder/listener/aio_listener.py", "anthunder/listener/sock_listener.py"],
     [("heartbeat timer", "AioClient._heartbeat_timer / invoke_heartbeat"), ("heartbeat branch", "AioListener._handler_connection, SockBoltHandler.handle")],
     observe=["frames on the wire", "AioClient.invoke_heartbeat result"])

prop("C10", "Oneway calls are oneway on the wire: marked, executed and never answered",
     "A oneway call of either client sends one request frame marked oneway and returns without waiting for the server. "
     "Either listener executes the service method of a well-formed oneway request exactly once and never sends a response for a oneway request, whether it succeeds, fails, times out or cannot be dispatched.",
     ["histories", "inputs"], "all mixes of oneway and two-way requests with each dispatch outcome, in all completion orders",
     "No test performs a oneway call.",
     ["anthunder/client/aio_client.py", "anthunder/client/client.py", "anthunder/listener/aio_listener.py", "anthunder/listener/sock_listener.py"],
     [("ptype ONEWAY", "invoke_oneway"), ("early return for oneway", "AioListener._dispatch")],
     observe=["frames on the wire", "service invocations"])

prop("C11", "The asyncio listener answers every two-way request exactly once and correctly",
     "For every complete two-way request frame received on an open connection the listener sends exactly one response frame, carrying the request's id: success with exactly the bytes the service returned (an empty result included), or the failure status of what went wrong - no such interface or method, missing interface or method name, service error, request timeout exceeded. "
     "This holds for all completion orders of concurrent requests, for service results the protocol cannot carry, and when a service finishes after its timeout has been answered; response frames are never cut or interleaved. A peer that has closed or half-closed its connection is promised nothing.",
     ["schedules", "inputs"], "all completion orders and timer orders of up to 3 concurrent requests over every service behaviour and back-pressure pattern",
     "Tests call one service that always returns a non-empty result in time.",
     ["anthunder/listener/aio_listener.py", "anthunder/listener/base_listener.py", "anthunder/command/fail_response.py"],
     [("status mapping and response writing", "AioListener._dispatch"), ("executor hand-off", "AioThreadpoolRequestHandler.handle_request")],
     observe=["frames on the wire"])

prop("C12", "A bad request harms nobody else: framing and isolation of the asyncio listener",
     "The response stream of the asyncio listener does not depend on how the request bytes are split into segments, and a request that is malformed inside a well-framed package (bad header block, wrong command code or class, bad trace context) is itself answered with a failure status and leaves earlier, concurrent and later requests on the connection, and all other connections, undisturbed. "
     "A connection that ends at any byte offset never yields a second response to a request already answered, never executes an incomplete request, and never affects other connections.",
     ["inputs", "crash_points"], "every split point and every end-of-stream offset of request streams mixing valid and malformed frames",
     "Tests send whole well-formed frames over loopback only.",
     ["anthunder/listener/aio_listener.py", "anthunder/protocol/_sofa_header.py"],
     [("per-frame error handling", "AioListener._handler_connection")],
     observe=["frames on the wire"])

prop("C13", "Requests reach exactly the registered service, method, body and trace context",
     "Each well-formed request is executed exactly once, on a fresh service object made by the class (and the extra arguments) most recently registered on that listener for the requested interface, by the named method, with exactly the request's body, and with the trace context of that request and no other. "
     "The requested interface is the header sofa_head_target_service, or service where that one is missing or empty. "
     "An interface registered on one listener is neither served nor published by another listener in the same process.",
     ["histories", "schedules"], "all sequences of registrations on two listeners and requests up to a depth, for both listener kinds, with concurrent requests",
     "Tests register one interface on one listener.",
     ["anthunder/listener/base_listener.py", "anthunder/listener/aio_listener.py", "anthunder/listener/sock_listener.py"],
     [("interface registry", "register_interface"), ("dispatch", "handle_request")],
     state=[("interface_mapping", "interface -> service factory", "BaseHandler")],
     observe=["constructor and method calls on service classes", "frames on the wire"])

prop("C14", "The threaded listener answers each request once and never spins on a dead peer",
     "The threaded listener serves one request per connection: for a complete two-way request it sends exactly one response frame with the request's id: success with exactly the service's bytes (empty included), or a failure status for an undispatchable, malformed or failing request. "
     "Whatever the segmentation of the bytes and wherever the peer stops, closes or resets, the handler thread ends once the connection has ended, without executing an incomplete request; connections whose service runs long or whose peer stalls hold up no other connection.",
     ["inputs", "crash_points"], "every split point and every end-of-stream or reset offset of valid and malformed requests, every service outcome",
     "The threaded listener has no test at all.",
     ["anthunder/listener/sock_listener.py"],
     [("exact reads", "SockBoltHandler._readexactly"), ("request handling", "SockBoltHandler.handle")],
     observe=["frames on the wire", "handler threads"])

prop("C15", "The blocking client sends whole requests, returns its own reply, in time",
     "A synchronous call of the blocking client sends its complete request frame whatever the socket accepts per write, and returns the content of the success response carrying its id however the response is segmented. "
     "A closed or reset connection, a refused dial, an error status, a foreign id, an undecodable reply, a frame that is no response or silence makes it raise at the latest shortly after its timeout (one second of grace); it never loops, never returns partial or foreign content, and repeated failures do not exhaust the client.",
     ["fault_sequences", "inputs"], "every short-write pattern, split point, close/reset/stall offset and reply kind, over histories of up to 3 calls",
     "The tests only make one successful loopback call and one address lookup.",
     ["anthunder/client/client.py", "mysockpool/connection.py"],
     [("deadline loop", "Client.invoke_sync"), ("retry loop", "Client._raw_invoke")],
     observe=["bytes received by the server", "Client.invoke_sync result and duration"])

prop("C16", "A connection pool respects its limits and never lends a connection twice",
     "Under all sequences and interleavings of borrowing, returning, failing and closing, a pool never has more than its maximum of connections open, never hands one connection to two borrowers at once, never hands out a connection known to be dropped, keeps at most its maximum of free connections and closes the surplus. "
     "Its count equals the connections it is accountable for, so that once borrowers return or the dropped ones are replaced, capacity is available again; a blocking pool that keeps spare connections lends at once while it is below its maximum, and one that is exhausted waits for a returned connection up to its timeout and then raises, a non-blocking one raises at once; a closed pool refuses to lend and closes what is in it and what comes back.",
     ["schedules", "histories"], "all operation sequences up to a depth for several pool configurations, and all interleavings (bounded preemptions) of 2-3 threads",
     "test_pool runs one sequence in one thread.",
     ["mysockpool/connection_pool.py", "mysockpool/utils.py"],
     [("count check under lock", "ConnectionPool._new_conn"), ("LIFO queue of free connections", "ConnectionPool.get_conn / put_conn")],
     state=[("num_connections", "connections the pool accounts for", "ConnectionPool"), ("pool", "queue of free connections, None when closed", "ConnectionPool")],
     observe=["get_conn / put_conn / close", "connections open"])

prop("C17", "The pool manager keeps one live pool per key and returns every connection",
     "All concurrent and later requests for one key get the same open pool until it is evicted; at most the configured number of pools is kept, the least recently used one is evicted, and every evicted or cleared pool is closed exactly once while pools still kept stay open. "
     "A scoped connection goes back to its pool exactly once, also when the body raises, and a scope that could not obtain a connection returns none.",
     ["schedules", "histories"], "all sequences of requests over 3-4 keys, scopes and clears up to a depth, and all interleavings of 2-3 threads",
     "test_pool_man runs one sequence in one thread; scopes are never left by an exception.",
     ["mysockpool/pool_manager.py", "mysockpool/recently_used_container.py"],
     [("lookup and creation under the container lock", "PoolManager.connection_pool_from_pool_key"), ("finally-return", "PoolManager.connection_scope")],
     observe=["identity and state of the returned pools"])

prop("C18", "The recently-used container is an LRU map disposing each value exactly once",
     "The container behaves like a map of bounded size that, when full, evicts the key least recently looked up or inserted, under every operation sequence. "
     "Every value that leaves it by eviction, replacement, deletion or clearing is passed to the dispose function exactly once, values still inside never are, the size bound holds at all times, and concurrent operations are equivalent to some sequential order of them.",
     ["histories", "schedules"], "all operation sequences up to a depth over 3 keys for sizes 0-3, and all interleavings of 2-3 threads with linearizability checked",
     "It is only exercised through one pool-manager sequence.",
     ["mysockpool/recently_used_container.py"],
     [("ordered dict under a lock", "RecentlyUsedContainer")],
     observe=["mapping API", "dispose callback"])

prop("C19", "Trace context crosses the wire unchanged and only its own",
     "Injecting a span context into a carrier and extracting it again gives the same trace id, rpc id and baggage, ignoring entries that are not trace entries. "
     "A call made with a span context delivers to the service a context with the same trace id, rpc id and baggage, for every baggage content including dots, unicode and empty values; a carrier without trace entries yields a fresh context, and one with an unusable rpc id is reported as an invalid carrier.",
     ["inputs", "configurations"], "all carriers and contexts over a finite alphabet of keys, values and rpc-id shapes, directly and through client header, wire and both listeners",
     "test_extract_inject uses one carrier.",
     ["mytracer/tracer.py", "mytracer/span_context.py", "mytracer/_rpc_id.py", "mytracer/_trace_id.py", "anthunder/protocol/_rpc_trace_context.py", "anthunder/protocol/_sofa_header.py"],
     [("prefixing and stripping of keys", "MyTracer.inject / extract, RpcTraceContext.expand")],
     observe=["extract(inject(ctx))", "ctx seen by the service"])

prop("C20", "Span ids form a tree: children and followers get fresh ids under their parent",
     "Starting a child span keeps the trace id and baggage and gives an rpc id that extends the parent's by one segment; a follower gets a sibling id with the same prefix and a larger last segment. "
     "Within one trace no two spans derived from one root span get the same rpc id, for every sequence and interleaving of child and follower creations, and starting a span never changes an existing span's ids, whatever tags and references are given; of several references the first one counts.",
     ["histories", "schedules"], "all sequences of child/follower creations up to a depth over all spans created so far, and all interleavings of 2-3 threads",
     "The tests run one fixed sequence in which no two derivations compete for an id.",
     ["mytracer/_rpc_id.py", "mytracer/span_context.py", "mytracer/tracer.py", "mytracer/helpers.py"],
     [("per-parent child counter", "RpcId._new_child_of / _new_follows_from")],
     observe=["span.context baggage"])

prop("C21", "Generated trace ids are unique within a process",
     "Trace ids generated by one process, from any threads and however little time passes between them, are all different (up to 8001 ids within one millisecond), and consist of the host address, time, sequence and process id in the documented shape. "
     "A trace id given explicitly is kept as it is.",
     ["schedules", "inputs"], "8001 ids under a frozen clock, ids across clock steps, and all interleavings of 2-3 threads",
     "test_trace_id compares two ids.",
     ["mytracer/_trace_id.py", "mytracer/span_context.py"],
     [("sequence", "TraceId._sequence")],
     observe=["str(TraceId())", "SpanContext().baggage"])

prop("C22", "Mesh operations succeed only when acknowledged; startup registers exactly once",
     "A mesh operation returns normally only if the sidecar answered HTTP 200 with a JSON object whose success is true; every other answer or a transport failure raises, and the request carries exactly the documented endpoint and payload with empty application fields dropped. "
     "However many threads start a mesh client, the application is registered exactly once per successful startup; a failed startup raises and leaves the client able to try again.",
     ["schedules", "fault_sequences", "inputs"], "all answer shapes for every operation, all sequences of startup outcomes, all interleavings of 2-3 starting threads",
     "Tests mock a single success answer.",
     ["anthunder/mesh/mesh_client.py"],
     [("answer checks", "MeshClient._post"), ("started flag under lock", "MeshClient.startup")],
     observe=["HTTP requests", "exceptions"])

prop("C23", "Routing follows subscriptions, and a mapped address is never silently replaced",
     "After any sequence of subscribing, unsubscribing and mapping interfaces - with the mesh present, absent or failing - each interface resolves to the address mapped first and not since removed by an acknowledged unsubscribe, else to the mesh address; a bare host gets the default port. "
     "Subscribing and unsubscribing never raise, a refused operation changes no route, and assigning an already mapped key fails and keeps the first value, also when several threads race for the same key.",
     ["histories", "schedules", "fault_sequences"], "all operation sequences up to a depth over 2 interfaces and all mesh outcomes; all interleavings of 2-3 racing writers",
     "Tests check one unmapped lookup and one sequential double assignment.",
     ["anthunder/client/base.py", "anthunder/helpers/immutable_dict.py", "anthunder/__init__.py"],
     [("first-wins dict", "ImmutableValueDict.__setitem__"), ("lookup", "_BaseClient._get_address")],
     state=[("SERVICE_MAP", "interface -> address", "anthunder/__init__.py")],
     observe=["address dialled by a call", "SERVICE_MAP contents"])

prop("C24", "Publishing covers exactly the registered interfaces, also while others register",
     "Publishing announces every interface registered on the listener before the call, once, with the listener's port and application name, and unpublishing revokes exactly those; interfaces of other listeners are not touched. "
     "Registrations that run concurrently with publishing or unpublishing never make it fail or skip an interface registered before.",
     ["schedules", "histories"], "all sequences of registrations and publish/unpublish on two listeners, and all interleavings of a publishing and a registering thread",
     "Publishing a listener is not tested.",
     ["anthunder/listener/base_listener.py", "anthunder/mesh/mesh_client.py"],
     [("iteration over the registry", "BaseListener.publish / unpublish")],
     observe=["HTTP requests to the sidecar"])

prop("C25", "End to end, a call returns exactly what the service computed from its arguments",
     "When the library's clients call the library's listeners, every call that returns yields exactly the bytes the named service method returned for exactly the bytes passed in, for all contents (empty and large included), and every call whose service fails, is missing or exceeds the timeout raises. "
     "With the network intact, a call of the asyncio listener whose service returns within the timeout succeeds. This holds for concurrent calls under every network segmentation, delivery order and service completion order.",
     ["schedules", "inputs"], "all interleavings of up to 3 calls through real client and real listener over a simulated network, for each client/listener pairing",
     "The existing end-to-end tests run a few calls over loopback with one ordering.",
     ["anthunder/client/aio_client.py", "anthunder/client/client.py", "anthunder/listener/aio_listener.py", "anthunder/listener/sock_listener.py"],
     [("whole request/response path", "clients and listeners")],
     observe=["call results", "service invocations"])

prop("C26", "An async call's callback fires exactly once, only on success, with the content",
     "A callback given to an asynchronous call is called exactly once, with exactly the response content, if and only if the call succeeds; if the call fails, is cancelled or its connection is lost it is never called. "
     "A callback that raises does not disturb any other call, and without a callback the returned future delivers the response or the error.",
     ["schedules", "fault_sequences"], "all outcomes and orders of up to 3 asynchronous calls, with callbacks that return or raise, added before or after completion",
     "One test counts ten successful callbacks.",
     ["anthunder/client/aio_client.py"],
     [("done callback", "AioClient.callback_wrapper / invoke_async")],
     observe=["callback invocations", "future result"])

prop("C27", "A listener's lifecycle: serves until shutdown, then stops accepting and returns",
     "A running asyncio or threaded listener serves connections until shutdown is called; after that it accepts no new connection, connections already open are served until their peers end them, and then the thread running it ends. "
     "Shutdown may be called from any thread, including a service's, at any moment - while the listener is starting, while requests are in progress, more than once - without an error or a hang, and another listener can then take the address.",
     ["schedules"], "all interleavings (bounded preemptions) of shutdown with startup, connections and requests in progress",
     "Tests call shutdown once at class teardown and check nothing.",
     ["anthunder/listener/aio_listener.py", "anthunder/listener/sock_listener.py", "anthunder/listener/base_listener.py"],
     [("server close", "AioListener.shutdown, SockListener.shutdown")],
     observe=["acceptance of connections", "termination of run_forever"])

prop("C28", "Socket connections read exactly, write completely and notice a dead peer",
     "Reading an exact number of bytes returns exactly the next bytes of the stream whatever their segmentation, or raises once the stream has ended; writing everything delivers all bytes in order whatever the socket accepts per call, or raises. "
     "Neither loops without progress on a closed or reset connection, and a connection that was closed, reset or has unread bytes is recognised as unusable for a new exchange while an idle healthy one is not.",
     ["inputs", "fault_sequences"], "every segmentation, short-write pattern and end-of-stream or reset offset for messages of up to 6 bytes",
     "The connection class has no test of its own I/O.",
     ["mysockpool/connection.py", "mysockpool/_wait.py", "mysockpool/utils.py"],
     [("read loop", "SocketConnection.recvexactly"), ("write", "SocketConnection.sendall"), ("readability probe", "is_connection_dropped")],
     observe=["recvexactly / sendall / is_connection_dropped"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
