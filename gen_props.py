#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
S="runtime/server.c"; C="runtime/client.c"; L="runtime/link/socket/"; G="generator/languages/langc.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Values survive the wire unchanged",
  "For every protocol definition the compiler accepts and every argument value, a request, response or event handed to the generated code on one side is received on the other side with every field equal to what was sent: scalars, strings, enums, nested and extended structures, variants, and arrays of any length. Encoding never touches memory outside the message, decoding consumes exactly what was encoded, and a caller's output array or string that is too small is filled up to its size without disturbing the values that follow. Copying a structure yields an independent equal value, and destroying it releases everything exactly once.",
  ["programs","inputs"],"all protocol definitions over the supported types and all values that fit in a message",
  "The suite has one protocol and one value per call; most type/position combinations the generator can emit are never compiled, let alone run.",
  [G,"generator/passes/consolidate.py","generator/common/shared.py"],
  [("scalar/string codec",G+":define_shared_serializers"),("struct and variant codec",G+":define_struct_serializers"),("request decoding",G+":write_deserializer_prologue"),("result decoding",G+":write_variable_member_deserializer"),("struct copy/destroy",G+":write_structure_functionality")],
  ["arguments seen by the handler / event callback / caller compared with the arguments given"])
p("C02","Every call receives exactly its own response",
  "Every call with return values that the server answers is completed exactly once, with the values its own handler invocation produced, no matter how many clients, threads or calls are outstanding and in which order or from which thread responses are produced, including responses deferred beyond the handler. A result can be asked for while the call is still in progress without losing the response, and it can be collected only once. A response is never delivered to another client or another call.",
  ["schedules","histories"],"all interleavings of concurrent calls, clients, workers, deferred and reordered responses",
  "The suite issues a handful of calls against one schedule; crossed, lost or duplicated responses only appear under concurrency and reordering.",
  [C,S,"runtime/hashtable.c"],
  [("outstanding call table",C+":gracht_client_invoke"),("response matching",C+":__handle_response"),("result collection",C+":gracht_client_get_status_buffer"),("response addressing",S+":gracht_server_respond"),("deferral",S+":gracht_server_defer_message")],
  ["call log at the client boundary joined with the handler log on unique tokens"])
p("C03","Every request runs its handler exactly once, intact",
  "Every request a connected stream client has successfully sent to a running server invokes the matching handler exactly once with exactly the sent arguments and the sender's identity, with any number of workers and however far requests outrun the handlers. With no worker pool the requests of one client run in the order they were sent. Requests that were sent before the client disconnected are still executed.",
  ["schedules","inputs","histories"],"all request mixes, burst sizes, client counts and worker counts",
  "Loss and duplication need queues or receive memory to run full, or a disconnect racing with pending data; the suite never gets there.",
  [S,"runtime/dispatch_generic.c","runtime/queue.c",L+"server.c"],
  [("receive loop",S+":handle_client_event"),("dispatch to workers","runtime/dispatch_generic.c:gracht_worker_pool_dispatch"),("worker loop","runtime/dispatch_generic.c:worker_dowork"),("stream framing",L+"server.c:socket_link_recv_client")],
  ["handler log vs send log keyed by (client, sequence number)"])
p("C04","Events reach exactly the subscribed clients, once and in order",
  "A broadcast event is delivered to every connected client that is subscribed to the event's service and to no other client; an event addressed to one client is delivered to that client only, subscribed or not. Each delivered event arrives exactly once, with the values sent, and events sent by one thread to one client arrive in the order sent. Stream clients start subscribed to everything; subscribing or unsubscribing one service affects only that service of that client.",
  ["histories","schedules"],"all sequences of subscribe, unsubscribe, broadcast and targeted events over any services and clients",
  "The suite uses one client and two events; per-client per-service selectivity needs many clients, service numbers and histories.",
  [S,"runtime/control.c",C],
  [("subscription state",S+":client_subscribe"),("broadcast filter",S+":client_enum_broadcast"),("targeted events",S+":gracht_server_send_event"),("event dispatch",C+":__invoke_action")],
  ["events seen by each client callback vs a reference model of subscriptions"])
p("C05","Waits return exactly when what they wait for has happened",
  "Waiting for a specific call returns success only once that call's response or error has arrived, whatever other responses and events arrive meanwhile; awaiting several calls returns once all of them (or, when only one is asked for, any of them) have completed, and does so also when another thread received the responses. Once the awaited responses have been received no waiting thread stays blocked, and when the connection is lost every wait reports failure instead of blocking or spinning.",
  ["schedules","histories","fault_sequences"],"all arrival orders of responses and events, all numbers of waiting threads, connection loss at any point",
  "Missed wakeups and premature returns depend on arrival order and thread timing that the suite does not vary.",
  [C],
  [("specific wait",C+":gracht_client_wait_message"),("await",C+":gracht_client_await_multiple"),("wakeup of awaiting threads",C+":mark_awaiters")],
  ["state of each awaited call at the moment the wait returns; quiescence detection for blocked waiters"])
p("C06","Unsupported calls fail for their caller and nobody else",
  "A request naming a service or function the server does not have registered runs no handler, and the calling stream client learns that exactly this call failed while its other calls and all other clients proceed normally. Registering or unregistering a service takes effect for all later requests, and events of services the client has not registered are ignored without disturbing anything else.",
  ["inputs","histories"],"all service/function numbers, registered or not, interleaved with valid traffic and (un)registration",
  "Only 65,536 number pairs times histories of registration cover the lookup and the error path; the suite never sends an unsupported call.",
  [S,"runtime/shared.c","runtime/control.c",C],
  [("lookup","runtime/shared.c:get_protocol_action"),("error event",S+":server_invoke_action"),("error handling on the client",C+":gracht_control_error_invocation"),("registration",S+":gracht_server_register_protocol")],
  ["handler log and per-call status vs a model of the registered set"])
p("C07","No byte stream from a client can harm the server",
  "Whatever bytes a stream client sends, in whatever pieces, and whenever it stops or disconnects, the server performs no invalid memory access, does not crash or stall, and keeps serving its other clients correctly. Valid messages are executed no matter how the stream is cut into pieces, and messages whose stated length is shorter than a header or exceeds the server's receive buffer are never executed.",
  ["inputs","fault_sequences"],"all byte streams, segmentations and disconnect points of stream clients that keep reading what they are sent (field lengths inside a well-framed message are a recorded finding)",
  "The suite's only peer is the library's own client, which never produces a malformed, split or abandoned message.",
  [L+"server.c",S],
  [("header and length handling",L+"server.c:socket_link_recv_client"),("failure handling",S+":handle_client_event"),("disconnect",S+":client_destroy")],
  ["sanitizer reports, liveness of a well-behaved client, handler log"])
p("C08","No byte stream from a server can harm the client",
  "Whatever bytes the peer of a stream client sends, in whatever pieces, and whenever it closes, the client performs no invalid memory access and does not crash; valid responses and events are delivered however the stream is segmented, whether the client waits or polls. A malformed length or a lost connection is reported to the caller as a failure, polling with nothing complete pending reports that without losing data, and sending on a lost connection fails without killing the process.",
  ["inputs","fault_sequences"],"all byte streams, segmentations and close points of the peer (field lengths inside a well-framed message are a recorded finding)",
  "The suite's only peer is the library's own server on a local socket, which never splits, mangles or cuts a message.",
  [L+"client.c",C],
  [("stream receive",L+"client.c:socket_link_recv_stream"),("send",L+"client.c:socket_link_send_stream"),("receive handling",C+":gracht_client_wait_message")],
  ["sanitizer reports, results and events delivered vs those the scripted peer sent"])
p("C09","Connections are announced and released exactly once",
  "For every stream client the server announces one connect before any of its requests run and exactly one disconnect after it is gone, with the same identity, and for clients known only through datagram subscription exactly one of each around the subscription. However and whenever clients leave, including while responses or events are being sent to them, the server keeps running, drops what can no longer be delivered, reports failure to the sender, and releases every descriptor and buffer of the departed client.",
  ["schedules","fault_sequences","histories"],"all interleavings of connects, disconnects, requests, responses and events, of clients that read or leave",
  "The suite never disconnects a client under load; leaks and dead-peer signals only show after many such cycles.",
  [S,L+"server.c"],
  [("accept",S+":handle_connection"),("teardown",S+":client_destroy"),("send to a departed client",L+"server.c:socket_link_send_client"),("buffer return",S+":gracht_server_respond")],
  ["callback log per identity, open descriptors, process liveness"])
p("C10","Receive memory is exclusive, in bounds and fully reclaimed",
  "Every block handed out by the message memory pool lies inside the pool, is as large as requested, and overlaps no other live block; its contents are left untouched by operations on other blocks, also when blocks grow or are partially released. A request that cannot be satisfied is refused without side effects. When all blocks have been released, in whatever order, the pool can again satisfy the largest request it could satisfy when new.",
  ["inputs","histories","schedules"],"all sequences of allocate, grow, partial and full release, from any number of threads, over all pool sizes",
  "Overlap and fragmentation depend on long allocation histories; the suite only reaches the pool through a few messages.",
  ["runtime/arena.c","include/arena.h"],
  [("search","runtime/arena.c:find_free_header"),("allocate/grow","runtime/arena.c:gracht_arena_allocate"),("release and merge","runtime/arena.c:gracht_arena_free")],
  ["shadow interval map and content patterns of live blocks"])
p("C11","The internal collections behave as map, queue and pool",
  "The table used for clients, calls and services behaves like a map for any sequence of insert, replace, lookup, remove and enumerate under any hash distribution, through every growth and shrink. The work queue returns accepted items in the order they were accepted, each once, and refuses only when full. The buffer pool returns each stored item at most once and loses none, from any number of threads, however many items are stored.",
  ["histories","schedules"],"all operation sequences and hash distributions; all thread interleavings for the shared pool",
  "Collision chains, resizes, counter wrap-around and concurrent access need thousands of randomized steps to meet.",
  ["runtime/hashtable.c","runtime/queue.c","runtime/stack.c"],
  [("map","runtime/hashtable.c:gr_hashtable_set"),("removal","runtime/hashtable.c:gr_hashtable_remove_and_bump"),("queue","runtime/queue.c:gr_queue_enqueue"),("pool","runtime/stack.c:stack_push")],
  ["results of every operation vs a reference model"])
p("C12","Concurrent use is free of data races",
  "With any number of worker threads on the server, application threads sending responses and events, clients connecting and leaving, and several threads sharing one client to call, wait, await and poll, no two threads access the same memory of the library without synchronisation. The outcomes under concurrency equal those of some sequential order.",
  ["schedules"],"all thread interleavings of the documented concurrent uses",
  "A race usually leaves a test run green; it takes a happens-before checker and varied schedules to see it.",
  [S,C,"runtime/dispatch_generic.c","runtime/stack.c","include/rwlock.h"],
  [("client table locking",S+":gracht_server_respond"),("worker state","runtime/dispatch_generic.c:worker_dowork"),("buffer pool","runtime/stack.c:stack_push"),("shared client",C+":gracht_client_wait_message")],
  ["happens-before race reports on library memory"])
p("C13","Shutdown always completes and releases everything",
  "After shutdown has been requested, from any thread or handler and at any moment, the server stops at its next event: all workers finish, every client connection and listening socket is closed, every byte and descriptor the server owned is released, and the call running the server returns. No handler starts after the server has stopped, and a server that was created but never used can be stopped the same way. Shutting down a client releases everything it owned, whatever is still outstanding.",
  ["schedules","histories"],"all moments of shutdown relative to idle and busy workers, queued requests, connected clients and outstanding calls",
  "The suite shuts down once, when idle; lost wakeups and leaks depend on when shutdown hits.",
  [S,"runtime/dispatch_generic.c",C],
  [("request and teardown",S+":gracht_server_shutdown"),("worker teardown","runtime/dispatch_generic.c:gracht_worker_pool_destroy"),("client teardown",C+":gracht_client_shutdown")],
  ["return of the server loop, thread count, descriptors, leak report, handler log"])
p("C14","Datagram links carry calls and events faithfully",
  "Over a datagram link every request that arrives runs its handler once with the sent arguments, its response reaches the sending client and no other, and a client that subscribes receives the events of the services it subscribed to until it unsubscribes. Datagrams that are too short, inconsistent or too large are discarded without executing anything, harming the server, or affecting other clients.",
  ["inputs","histories","schedules"],"all mixes of datagram clients, calls, subscriptions and malformed datagrams, with and without workers",
  "The suite does not run the datagram link at all.",
  [L+"server.c",L+"client.c",S],
  [("receive",L+"server.c:socket_link_recv_packet"),("respond",L+"server.c:socket_link_send_packet"),("subscription record",S+":gracht_control_subscribe_invocation"),("client receive",L+"client.c:socket_link_recv_packet")],
  ["call and event logs per client, sanitizer reports"])
p("C15","The protocol compiler accepts the valid and rejects the invalid",
  "Every definition that follows the documented grammar, with types declared before use, is accepted and produces code that compiles as C for client and server with exactly the declared services, functions, events, types and numbers. A definition with a syntax error, an unknown type, a service, function or event number out of range, or a function or event number already used in its service is rejected with an error and no output. The same input always produces the same output.",
  ["programs"],"all protocol definitions, valid and invalid (names distinct and usable in C, arrays of strings in responses only)",
  "The suite compiles a single definition and never feeds the compiler a wrong one.",
  ["generator/parser.py","generator/passes/validate.py","generator/passes/consolidate.py",G],
  [("grammar","generator/parser.py:parse_scope"),("validation","generator/passes/validate.py:pass_validate"),("extension","generator/passes/consolidate.py:pass_consolidate"),("emission",G+":CGenerator")],
  ["exit status, files produced, C compiler verdict, declared numbers in the generated code"])
p("C16","Sustained use neither corrupts nor accumulates memory",
  "However long a server and its clients run any mix of calls, deferred responses, events, failed calls and reconnects, no operation reads or writes memory it does not own or relies on undefined behaviour, and everything acquired for an operation is returned once it is over. Memory held after N operations does not grow with N, receive capacity stays available, and everything is released at the end.",
  ["histories","schedules"],"all long mixed histories of library use, in single- and multi-worker mode",
  "Leaks and slow exhaustion need far more operations than a test performs, and silent memory errors leave results right.",
  [S,C,"runtime/arena.c","runtime/stack.c"],
  [("message memory",S+":get_in_buffer_mt"),("buffer recycling",S+":gracht_server_get_buffer"),("response memory",C+":gracht_client_status_finalize")],
  ["sanitizer and leak reports, live heap bytes sampled over the run"])
p("C17","Messages of every size up to the configured maximum work",
  "For every configured maximum message size and worker count, every request, response and event whose encoded size does not exceed the smaller of the two sides' maxima is delivered intact, including messages far larger than the socket buffers and while several threads send to the same client. Messages sent to one client are never interleaved or truncated on the stream.",
  ["inputs","schedules"],"all message sizes from empty to the maximum, all maximum sizes and worker counts",
  "The suite uses one small default size; boundaries, multi-buffer sends and concurrent large sends are never met.",
  [S,L+"server.c",L+"client.c","runtime/arena.c"],
  [("receive memory sizing",S+":configure_server"),("stream send",L+"server.c:socket_link_send_client"),("pool size limits","runtime/arena.c:gracht_arena_create"),("client memory",C+":gracht_client_create")],
  ["content hash of each message at the receiving side, keyed by size class"])
p("C18","Wrong use of the API is refused without damage",
  "Missing arguments, configurations that cannot be satisfied, a second connect, registering a service number twice, more links than supported, waiting for or collecting unknown calls, unusable links, and use after a shutdown request are each refused with a failure result and leave the server or client in its previous, fully working state. Accepted configuration is honoured: a supplied poll descriptor or send buffer is used and never closed or freed by the library, and the application may drive the server itself instead of the built-in loop.",
  ["inputs","histories"],"all API call sequences mixing valid and invalid calls",
  "The suite only performs valid calls in one order.",
  [S,C,L+"shared.c","runtime/client_config.c","runtime/server_config.c"],
  [("server entry points",S+":gracht_server_add_link"),("client entry points",C+":gracht_client_connect"),("configuration",S+":configure_server")],
  ["result of each call vs the documented contract, followed by a working round trip"])
p("C19","A shortage of memory, descriptors or threads costs one operation, nothing else",
  "Each allocation, descriptor, poll registration, thread or transmission of the library that fails costs at most the one operation or connection it was for: the operation reports failure, has had no effect (what was reported as not sent never runs, what could not be created leaves no memory, descriptor or thread behind) and can be repeated, and all other calls, clients and services go on. A connection that cannot be kept is closed, so that its client learns of it, announcements stay balanced and no message is ever delivered in part. As soon as the shortage is over everything works as before.",
  ["fault_sequences","histories","configurations"],"every single failing acquisition or transmission of a server's and its clients' life, and random sequences of them",
  "Nothing fails for want of resources in the suite; each of some hundred places needs its own failing request.",
  [S,C,L+"server.c",L+"client.c",L+"shared.c","runtime/hashtable.c","runtime/dispatch_generic.c","runtime/stack.c"],
  [("server creation",S+":gracht_server_create"),("client creation",C+":gracht_client_create"),("tables","runtime/hashtable.c:gr_hashtable_set"),("accepting",L+"server.c:socket_link_accept"),("sending a call",C+":gracht_client_invoke"),("messages sent in part",L+"shared.c:socket_send_message"),("workers","runtime/dispatch_generic.c:gracht_worker_pool_create")],
  ["injected failures (count, place) vs operations and connections affected, execution ledger, descriptors, threads, leak reports"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
