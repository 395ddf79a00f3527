"""Single source for properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md (see gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, design, note, observe=(), technique='explicit enumeration of executions of the real server in a closed, simulated environment', level='model_checking', state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, design=design, note=note,
                  observe=list(observe), technique=technique, level=level, state=list(state)))


SIM = 'Exhaustive within the stated alphabet and bounds, on the real worker binary (ASan build) with all sockets, time and backends simulated; assumes one worker thread and the simulated kernel answers.'

prop('C01', 'Request boundaries on a connection are exact',
     'The requests a client puts on one connection are delimited exactly as their headers declare (none, Content-Length or chunked body), no matter how the bytes are cut into segments or pipelined. No byte of one message is ever interpreted as part of another, each request gets exactly one final response, in order, and an unread body never becomes the next request.',
     ['inputs', 'schedules', 'histories'], 'all cuts of the byte stream into up to 3 segments (4 thorough) x sequences of pipelined requests over an alphabet of bodyless, fixed length and chunked requests x handlers that do or do not read the body',
     'the test-suite sends complete requests in one write and looks at single responses; fragmentation and pipelining are quantified over every cut point and order',
     ['src/main/connection.c', 'src/main/request.c', 'src/main/http_request_parser.rl', 'src/main/filter_chunked.c'],
     [('connection state machine, in-stream body length accounting', 'src/main/connection.c'), ('chunked decoder state', 'src/main/filter_chunked.c')],
     'Byte streams are generated from an alphabet of request shapes (GET/HEAD/POST, no body, Content-Length, chunked with different chunkings, Expect) and handlers (direct answer, static file, SCGI/FastCGI/proxy backend with and without body buffering), sent with every placement of one and two cuts and as all ordered pairs/triples of pipelined requests. The oracle is a reference framing model of the stream (lib/reqmodel.py): number, order and echo content of responses, bodies seen by the backend.',
     SIM, ['client socket', 'backend socket'])

prop('C02', 'Every response is self-framed and byte-exact',
     'For every request a strict HTTP/1.x client can delimit the response on the wire (status line, headers, exactly one of Content-Length, chunked or close delimited body), and it receives exactly the bytes the handler produced. HEAD, 204, 205 and 304 responses carry no body, HTTP/1.0 clients never get chunked bodies, and the connection persists or closes exactly as announced.',
     ['inputs', 'configurations'], 'method x HTTP version x Connection header x handler/status x backend protocol x backend framing of the response',
     'tests compare a few bodies with a lenient client library; the cross product of version, connection mode, handler and status is not explored',
     ['src/main/response.c', 'src/main/connection.c', 'src/main/filter_chunked.c', 'src/main/stream_http_response.c'],
     [('response header generation and transfer encoding choice', 'src/main/response.c'), ('keep-alive decision', 'src/main/connection.c')],
     'Cross product of request variants and handlers (direct, static, redirect, error pages, SCGI, FastCGI, proxy, deflate) with backend answers (status, body size, declared length, segmentation). Each run is followed by a second pipelined request to detect framing slips; the strict parser in lib/http1.py rejects anything ambiguous.',
     SIM, ['client socket'])

prop('C03', 'Malformed or oversized requests are rejected, valid ones served',
     'A request that is malformed, ambiguous in its framing, or over the configured limits gets an error response (or a closed connection) and is never passed to a handler; afterwards the connection is closed so that the following bytes cannot be misread. Every well-formed request is served with exactly the method, host, path, query and headers that were sent.',
     ['inputs'], 'all single byte replacements, insertions, deletions and swaps of seven base requests, all truncations, all pairs of framing relevant header values',
     'tests contain a handful of invalid requests; acceptance is a predicate over all byte strings',
     ['src/main/http_request_parser.rl', 'src/main/request.c', 'src/main/url_parser.rl', 'src/main/filter_chunked.c', 'src/main/connection.c'],
     [('request line and header grammar', 'src/main/http_request_parser.rl'), ('semantic validation of Host, Content-Length, Transfer-Encoding, Expect', 'src/main/request.c'), ('URI grammar', 'src/main/url_parser.rl')],
     'Every mutant of the base streams is run on the server and on an independent reference model (lib/reqmodel.py, regular expressions written from the RFCs); verdict, echoed request fields and treatment of the following pipelined request must agree.',
     SIM, ['client socket'])

prop('C04', 'Requests never influence each other',
     'The response to a request, and what its backend sees, depends only on that request, the configuration and the state of files and backends: not on requests served before on the same connection, on recycled connection or request objects, on requests that were abandoned at any point by client or backend, nor on requests in progress on other connections. No header, option, path, user or body data of one request ever shows up in another.',
     ['histories', 'schedules', 'faults'], '29 request kinds (echo of request fields, bodies, ranges, options set by actions, auth, rewrite, pathinfo, three backend protocols, errors, deflate): all sequences of length 3 (4) on one connection, all pipelined pairs, all pairs (triples) over recycled connections; every kind abandoned at every byte and every backend stage in 2-3 ways followed by another kind; every kind paused at header/body boundaries (every byte) while each other kind is served',
     'tests send independent requests; leaks between requests need specific histories',
     ['src/main/connection.c', 'src/main/virtualrequest.c', 'src/main/request.c', 'src/main/response.c', 'src/main/worker.c', 'src/main/stream_simple_socket.c'],
     [('connection reset / keep-alive reuse', 'src/main/connection.c'), ('request object reset', 'src/main/virtualrequest.c'), ('connection recycling', 'src/main/worker.c')],
     'Differential model checking on the real server: the observation of every request alone on a freshly started server (client bytes, backend bytes, end of connection) is the reference, and after every enumerated history the same observation must appear, byte for byte except the Date header.',
     SIM, ['client socket', 'backend socket'])

prop('C05', 'URLs never map to files outside the configured roots',
     'The file selected for a request is determined only by the percent-decoded, dot-segment-free path appended to the root chosen by the matching docroot, alias, virtual host or user directory rule; no URL or Host value reaches a file outside that root. Alias prefixes match only at path separators, and index, path-info and rewrite processing keep the same containment.',
     ['inputs', 'configurations'], 'all URLs over token alphabets ("/", "..", ".", encoded and double encoded dots/slashes/NUL/backslash, names) up to 4 (5-6 thorough) tokens x 16 mapping configurations; all Host values over a label alphabet',
     'tests request a few traversal strings; containment is a statement over all strings',
     ['src/common/utils.c', 'src/main/request.c', 'src/main/url_parser.rl', 'src/main/plugin_core.c', 'src/modules/mod_userdir.c', 'src/modules/mod_rewrite.c'],
     [('url decoding and path simplification', 'src/common/utils.c'), ('docroot, alias, index, pathinfo actions', 'src/main/plugin_core.c'), ('user directory mapping', 'src/modules/mod_userdir.c')],
     'A directory tree with a uniquely identifiable file at every interesting place (inside, beside and above the roots) is served; for every enumerated URL the response must be exactly the file computed by a small path model (decode, simplify, prefix rule, lookup), or a refusal when that file does not exist.',
     SIM + ' No symbolic links.', ['client socket'])

prop('C06', 'Static files and byte ranges are delivered exactly',
     'A GET for a static file returns exactly its bytes with the type of its longest matching suffix; a Range request returns exactly the requested satisfiable parts with matching Content-Range headers, 416 when none is satisfiable, and the complete file when ranges are disabled. Excluded extensions, non-regular files and other methods are refused.',
     ['inputs', 'configurations'], 'all Range values over a token alphabet up to 6 (7) tokens, all one to three element range lists over boundary values, file sizes 0 to 320000, all file names over a suffix alphabet, all methods',
     'tests contain no range request beyond a simple one; correctness is over all range sets and sizes',
     ['src/main/plugin_core.c', 'src/main/http_range_parser.rl', 'src/main/mimetype.c', 'src/main/chunk.c', 'src/main/stat_cache.c'],
     [('range parser', 'src/main/http_range_parser.rl'), ('static handler', 'src/main/plugin_core.c'), ('suffix trie', 'src/main/mimetype.c')],
     'The response for every enumerated Range value is parsed (including multipart bodies) and compared with slices of the file computed from an independent RFC grammar; names are checked against a longest-suffix oracle.',
     SIM + ' Syntactically invalid Range values may be answered with the full file, 416, or correct parts.', ['client socket'])

prop('C07', 'Conditional requests never yield stale or mixed content',
     'A 304 is sent exactly when every validator the client gave matches the current file; whenever size or modification time of a file changes its entity tag changes, so an outdated validator always yields the new content. A partial response is only sent if the If-Range validator, when present, matches.',
     ['inputs', 'histories'], 'all combinations of If-None-Match, If-Modified-Since, Range and If-Range variants; all pairs of 396 file versions; all modification histories of one path up to depth 3 (4)',
     'tests do not cover conditional requests; freshness is over all version pairs and histories',
     ['src/main/etag.c', 'src/main/plugin_core.c', 'src/main/stat_cache.c'],
     [('etag computation and comparison', 'src/main/etag.c'), ('If-Range evaluation', 'src/main/plugin_core.c')],
     'Validators of all versions are fetched and compared pairwise; every header combination is compared with a decision table; histories (touch, append, shrink, rewrite, atomic replace, delete, directory) are executed step by step with old validators replayed after each step, with warm and cold stat caches.',
     SIM, ['client socket'])

prop('C17', 'Backends receive exactly the request the client sent',
     'FastCGI, SCGI and HTTP backends receive the client request completely and unambiguously encoded: method, target, protocol, peer address, every header and every body byte, with correct lengths, for any size, segmentation or timing of the backend connection. Variables configured by the administrator and X-Forwarded-* can not be forged by client headers, and URL or header content never breaks the framing of the backend protocol.',
     ['inputs', 'schedules', 'configurations'], 'URLs over 21 tokens up to length 3 (4), every byte value, all header sequences up to 2 (3) from a menu of 18, all lengths around the encoding boundaries of the protocols, bodies up to 140 kB in both framings, all cuts x completion times of the backend connect, 3 protocols x buffered/streamed',
     'the tests inspect a few variables of single requests; the encoding must be injective over all requests',
     ['src/main/environment.c', 'src/modules/fastcgi_stream.c', 'src/modules/mod_fastcgi.c', 'src/modules/mod_scgi.c', 'src/modules/mod_proxy.c', 'src/modules/mod_rewrite.c'],
     [('CGI environment construction', 'src/main/environment.c'), ('FastCGI record encoder', 'src/modules/fastcgi_stream.c'), ('SCGI netstring encoder', 'src/modules/mod_scgi.c'), ('proxied request header', 'src/modules/mod_proxy.c')],
     'The bytes that arrive at the simulated backend are decoded by independent strict SCGI, FastCGI and HTTP parsers (checks/c17.py) and compared with the complete expected variable set, header list and body of the request. Streamed uploads are cut at every byte and the backend connect completes at every point in between.',
     SIM + ' Repeated request headers may be passed as repeated or joined variables.', ['backend socket'])

prop('C18', 'Backend responses are relayed exactly and never truncated silently',
     'Whatever way a backend splits its output into segments or FastCGI records, the client receives the same status, headers and body. If the backend connection fails or ends before the end its protocol defines (HTTP length or last chunk, FastCGI end of stdout), the client gets an error response or a detectably aborted one, never a shortened response presented as complete and never an endless wait; other requests on the connection stay in sync.',
     ['inputs', 'schedules', 'faults'], 'messages x status x framing: every single cut and cut pair, byte-wise delivery; every truncation point x close, half-close, reset; all FastCGI record sequences up to length 4 (5) over 13 records; every byte value at every header position; connect and write failures by errno',
     'tests use well behaved backends on loopback; failures at every byte cannot be sampled',
     ['src/main/stream_http_response.c', 'src/main/http_response_parser.rl', 'src/modules/fastcgi_stream.c', 'src/main/filter_chunked.c', 'src/main/backends.c', 'src/main/stream_simple_socket.c'],
     [('response header parser and length accounting', 'src/main/stream_http_response.c'), ('FastCGI record decoder', 'src/modules/fastcgi_stream.c'), ('chunked decoder', 'src/main/filter_chunked.c')],
     'The simulated backend sends every enumerated byte stream and ends it in every way; a second pipelined client request detects desynchronisation and hangs. Verdict complete/broken comes from a model of the backend protocol framing (checks/c18.py).',
     SIM + ' SCGI has no framing except the end of the connection, and a reset after a close-delimited message counts as its end; before response headers a broken backend may lead to a closed client connection instead of an error page.', ['client socket'])

prop('C12', 'Configuration conditions and control flow decide exactly as documented',
     'For every request, a condition of the configuration is true exactly when its documented meaning says so: string comparison, prefix, suffix and regular expression operators and their negations, numeric comparisons without truncation, `and` binding stronger than `or`, parentheses and `!`. The actions of exactly the selected branch run, in order, once each; if / else if / else chains, nested blocks, named actions and conditions that wait for the response of a backend included.',
     ['inputs', 'configurations', 'schedules'], 'all operators x 10 string variables x all strings over {a,b} up to length 3; numeric operators x boundary values up to 2^32; all boolean expression trees over up to 4 atoms x operators x negations x 3 parenthesis styles x all 16 truth assignments; all control flow programs of two (three) statements of nesting depth 1 and selected depth 2; backend responses x every segment cut',
     'a test configuration contains a handful of conditions; the meaning must be right for every expression and program',
     ['src/main/config_parser.rl', 'src/main/condition.c', 'src/main/actions.c'],
     [('condition parser and tree', 'src/main/config_parser.rl'), ('condition evaluation', 'src/main/condition.c'), ('action stack', 'src/main/actions.c')],
     'Thousands of enumerated conditions and programs are compiled into one configuration (dispatched by path) and the real server evaluates them for every truth assignment; traces left in environment variables and response headers are compared with a direct interpreter of the abstract programs (checks/c12.py).',
     SIM + ' Same-operator chains are not required to associate in a particular direction.', ['client socket'])

prop('C13', 'Address based rules use the most specific matching network',
     'access.check grants a request exactly when the longest network containing the peer address is an allow rule, and denies when no rule matches; conditions on peer, local and query addresses (`==`, `!=`, `=/`, `!/`) hold exactly when the address is in the network. Address text is parsed exactly as RFC 4291 / dotted quad with prefix length and port defines, anything else is rejected; the prefix tree behaves as a map with longest prefix lookup for every sequence of insert, remove and lookup.',
     ['inputs', 'operation sequences', 'configurations'], 'all rule sets of up to 3 (4) of 10 IPv4 and 10 IPv6 networks with all allow/deny assignments and insertion orders x 19/21 boundary addresses; all network conditions x addresses; all strings over address token alphabets; all prefix tree operation sequences up to depth 4 (5)',
     'mod_access has no test at all; longest prefix matching must hold for every rule set',
     ['src/modules/mod_access.c', 'src/common/radix.c', 'src/common/utils.c', 'src/common/ip_parsers.rl', 'src/main/condition.c'],
     [('rule lookup', 'src/modules/mod_access.c'), ('radix tree', 'src/common/radix.c'), ('address parsers', 'src/common/ip_parsers.rl')],
     'Rule sets are enumerated into configurations of the real server (many per configuration, dispatched by path) and queried from every boundary peer address; parsers and tree are driven directly by a C harness (harness/ip.c) linked to the libraries of the tree and compared with a map and an independent parser.',
     SIM + ' A colon after a compressed IPv6 address is tolerated.', ['client socket', 'C API'])

prop('C19', 'Patterns, rewrites and redirects produce exactly the documented target',
     'A pattern always expands to its literal text, the selected captures of the action (`$`) and of the innermost matching regular expression condition (`%`), in the order of the range, and the (optionally URL encoded) variables. rewrite and rewrite_raw apply exactly the first matching rule, replace the query exactly when the target has a `?`, and leave request.path, request.query and request.raw_path consistent; redirect sends a 301 with exactly the URI built from the rule, without altering its meaning by missing encoding, and never touches an already handled request.',
     ['inputs', 'configurations'], 'all patterns of up to 2 (3) tokens of 41 and all of 3 tokens of 13, x 4 regular expressions x 2 conditions x 4 requests; all rule lists of up to 3 of 9 rules and all action sequences of up to 3, x 36 URLs; all rewrite_raw lists; all redirect pairs of 12 rules x 10 paths x hosts; all nestings of regular expression conditions up to depth 3 x 12 truth assignments',
     'tests exercise three rewrite rules; mod_redirect is untested; expansion must be right for every rule and URL',
     ['src/main/pattern.c', 'src/main/actions.c', 'src/modules/mod_rewrite.c', 'src/modules/mod_redirect.c', 'src/main/condition.c'],
     [('pattern parser and expansion', 'src/main/pattern.c'), ('rewrite actions', 'src/modules/mod_rewrite.c'), ('redirect action', 'src/modules/mod_redirect.c'), ('capture stack', 'src/main/actions.c')],
     'All programs are compiled into configurations of the real server, dispatched by host name; the result (variables echoed in the body, Location header) is compared with a direct implementation of the documented semantics (checks/c19.py).',
     SIM + ' The case of hexadecimal digits in escapes is not prescribed.', ['client socket'])

prop('C20', 'Virtual hosting selects exactly the configured site and document root',
     'vhost.map runs exactly the action of the (lower-cased, port and trailing dot stripped) host name and otherwise the default, vhost.map_regex the action of the first matching expression; docroot and its host label placeholders (`$1`, `$0`, ranges such as `$3-1`) always build exactly the documented directory name and pick the first existing directory of the list (else the last); userdir maps /~user/ URLs to exactly the directory its pattern describes for a valid user name and leaves every other request alone. An invalid configuration is refused with an error, never a crash.',
     ['inputs', 'configurations'], 'all maps of up to 2 (3) of the host keys x default x 20 host spellings, exact and regular expression; all docroot patterns of up to 2 (3) tokens x 17 hosts; all subsets of existing directories; all userdir patterns x users x paths; 18 invalid configurations',
     'vhost has a handful of fixed tests, userdir none; a wrongly selected site leaks content for some spelling of a host',
     ['src/modules/mod_vhost.c', 'src/modules/mod_userdir.c', 'src/main/plugin_core.c', 'src/main/pattern.c'],
     [('vhost maps', 'src/modules/mod_vhost.c'), ('docroot patterns', 'src/main/plugin_core.c'), ('user directories', 'src/modules/mod_userdir.c')],
     'All small configurations are compiled into programs of the real server (dispatched by path), and the selected action or the built physical path is compared with a direct implementation of the documented rules (checks/c20.py).',
     SIM + ' A label number beyond the labels of the host is not prescribed.', ['client socket'])

prop('C24', 'Compression is transparent',
     'A response passed through deflate decodes to exactly the body the origin produced, for every encoding, body size, content, framing, backend segmentation, buffer option and read fault; only encodings the client accepts (q=0 refuses) and the configuration enables are used, the response is labelled (Content-Encoding, Vary, its own ETag that revalidates to 304) and framed correctly, and already encoded, partial or bodiless responses are left untouched. A response broken off by its origin is never turned into a complete one, and everything the origin has sent so far can be decoded by the client at once (gzip, deflate).',
     ['inputs', 'schedules', 'faults'], 'all Accept-Encoding lists of up to 2 (3) of 24 tokens in one or two header lines x 4 encoding options; 10 (18) sizes around every buffer boundary x 2 (3) contents x 3 (5) encodings x 4 sources x 9 buffer options; all 2- and 3-way cuts of a body and large incompressible segments; break-off at every byte x close/reset; 18 statuses x 3 methods x entity headers; each variant revalidated against the ETag of each; every file read failing',
     'tests decode two fixed bodies; corruption appears only for particular sizes, cuts or faults',
     ['src/modules/mod_deflate.c', 'src/main/filter.c', 'src/main/virtualrequest.c', 'src/main/response.c', 'src/main/etag.c'],
     [('compression filters and negotiation', 'src/modules/mod_deflate.c'), ('filter chain', 'src/main/filter.c')],
     'Every combination runs on the real server with a scripted backend or file; bodies are decoded with independent decoders (zlib, bz2 of Python) and compared with the origin body, after each backend segment as well as at the end (checks/c24.py).',
     SIM + ' Prompt decoding is not required of bzip2. Empty error responses are replaced by an error page.', ['client socket', 'backend socket'])

prop('C11', 'Header, environment and map actions compose exactly as documented',
     'Any sequence of header.add, append, overwrite and remove leaves exactly the response header lines that the same operations on an ordered, case-insensitively named list give, for generated and backend responses alike; req_header.* does the same for what later conditions, patterns and backends see, env.* for the environment, and map runs exactly the action of the key its pattern evaluates to (or the default). Data from the client that is put into a header value can never add, split or end header lines.',
     ['inputs', 'operation sequences'], 'all sequences of up to 3 (4) of 10 header operations x 3 requests x 3 initial header lists, on generated responses, request headers and backend responses; all sequences of up to 4 (5) of 9 environment operations; all maps over up to 2 (3) keys of 8, key lists included, x all keys; every byte value in path, query and header copied into header values',
     'tests use a few fixed header actions; composition over all sequences cannot be sampled',
     ['src/main/http_headers.c', 'src/main/plugin_core.c', 'src/main/environment.c', 'src/main/response.c'],
     [('header list operations', 'src/main/http_headers.c'), ('header, env and map actions', 'src/main/plugin_core.c'), ('environment', 'src/main/environment.c')],
     'All sequences are compiled into configurations of the real server and the complete header list of each response is compared with a list model (checks/c11.py); injection is judged by strict response parsing with a second pipelined request.',
     SIM + ' header.overwrite and append act on the last line of that name.', ['client socket', 'backend socket'])

prop('C14', 'Protected resources are reachable exactly with valid credentials',
     'Behind auth.plain, auth.htpasswd or auth.htdigest a request is granted exactly when it carries Basic credentials of a user listed in the password file, with exactly that password (and realm), whatever the hash format (apr1 MD5, SHA1, crypt), the position of the entry, line ends, the spelling of the header or other content of the file; anything else gets 401 with a challenge and never reaches the resource. Changes of the password file take effect within the configured ttl; an unusable file never grants more than the last usable one.',
     ['inputs', 'configurations', 'histories'], '7 hash formats x 8 users x near-miss credentials and header spellings; all password files of up to 3 lines of a menu x final newline; all file histories up to depth 2 (3) of change, delete, replace by older file, unreadable, invalid x request times around the ttl; orders of auth with other actions',
     'tests check one user per backend; a single accepted wrong credential breaks the guarantee',
     ['src/modules/mod_auth.c', 'src/common/utils.c', 'src/main/base_lua.c'],
     [('credential verification and password file cache', 'src/modules/mod_auth.c'), ('apr md5 crypt', 'src/common/utils.c')],
     'Credentials, password files and file histories are enumerated and served by the real server under virtual time; the expected verdict comes from independent implementations of the hashes and file format (checks/c14.py).',
     SIM + ' auth.deny may answer 401 or 403; within the ttl the old or new contents may be used.', ['client socket'])

prop('C15', 'Configured limits on requests are enforced exactly and released',
     'limit.con and limit.con_ip let a request run exactly while fewer than the configured number of requests are running (in total, or from the same IPv4 or IPv6 address); a request over the limit gets the configured action or a 503 and is not counted. Every way a request ends - completion, keep-alive, backend failure, client abort - releases its slot exactly once, so that the full limit is always available again. limit.req and limit.req_ip grant the configured number of requests at a time and never refuse a client that stays below the limit.',
     ['operation sequences', 'schedules'], 'all sequences of open, finish, abort, backend failure on 3 (4) connections from up to 3 addresses up to length 5 (6) x 10 limit configurations; all arrival patterns of up to 4 bursts x 3 addresses x inter-arrival times around one second x alignments',
     'mod_limit has no test; leaks and off-by-one need histories of concurrent requests',
     ['src/modules/mod_limit.c', 'src/main/waitqueue.c', 'src/common/radix.c', 'src/main/virtualrequest.c'],
     [('limit counters', 'src/modules/mod_limit.c'), ('request close callbacks', 'src/main/virtualrequest.c')],
     'Every operation sequence runs on the real server with a held backend; which requests reach the backend and every status is compared with a counter model, and after each history the full limit is requested again. Rates are judged under virtual time by bounds every window based counter satisfies (checks/c15.py).',
     SIM + ' Counting may use windows of up to two seconds or be aligned to full seconds.', ['client socket', 'backend socket'])

prop('C16', 'Bandwidth limits hold and never starve a connection',
     'Within any period the connections of a throttle (one connection, a pool, or a pool per client address) together receive no more than burst + rate x time (plus the fixed start allowance per connection), however requests, keep-alive, aborts and further connections interleave; at the same time every active connection keeps making progress, the configured bandwidth is used, bandwidth of ended connections is released, and the delivered bytes are exactly the response. This holds at every point of the server clock.',
     ['schedules', 'operation sequences'], '8 throttle configurations x 2 content sources x up to 3 connections from equal, different and IPv6 neighbour addresses x all start and abort times from a grid; keep-alive pipelined and lock-step request sequences; clock positions around the wrap of the millisecond counter',
     'mod_throttle has no test; limits are statements about all time windows of concurrent transfers',
     ['src/main/throttle.c', 'src/modules/mod_throttle.c', 'src/main/waitqueue.c', 'src/main/stream_simple_socket.c'],
     [('token buckets and pools', 'src/main/throttle.c'), ('throttle actions', 'src/modules/mod_throttle.c')],
     'The real server transfers under virtual time in 0.1 s ticks; the number of bytes per tick of every connection is compared with token bucket bounds for every window and with progress bounds (checks/c16.py).',
     SIM + ' Progress: some byte every 1.6 s and 60 percent of the allowed bandwidth; pools may release up to four seconds worth of rate at once.', ['client socket'])

prop('C09', 'Byte queues deliver every byte exactly once with exact accounting',
     'Whatever sequence of appends (strings, memory, shared buffers, files, temporary files), moves, partial moves, skips, resets and limit changes is applied to the queues between two parts of a response, each queue holds exactly the bytes put in and not yet taken out, in order; length, byte counters and memory usage are exact, the memory limit locks and unlocks (and says so once) exactly when the shared usage crosses it, temporary files exist exactly as long as bytes of them are queued, and interrupted, short or failing file reads are continued or reported, never turned into wrong data or writes outside the destination. No memory, file descriptor or file is leaked.',
     ['operation sequences', 'faults'], 'all sequences of up to 3 (4) of 62 operations on two queues; up to 4 (5) of 24 core operations; all splits of one 9 byte chunk of every kind by up to 4 (6) moves and skips; up to 3 (4) of 24 file operations x EINTR, short reads and a read error at each of the first reads',
     'queues are used by everything but have one small unit test; errors need particular orders of partial operations on particular chunk types',
     ['src/main/chunk.c', 'include/lighttpd/chunk.h', 'src/common/buffer.c'],
     [('chunk queues', 'src/main/chunk.c'), ('buffers', 'src/common/buffer.c')],
     'A C harness linked to the real library runs every operation sequence (depth first, each from a fresh state) on two queues and compares contents, counters, limit state and existing files with byte strings after each operation (harness/cq.c, checks/c09.py), under AddressSanitizer with pread replaced to inject faults.',
     'Queues with and without the shared limit are both covered; the memory mapped read interface, which nothing uses, is not.', ['library calls'])

prop('C25', 'The ETag cache serves only complete bodies of the same resource',
     'With cache.disk.etag, whatever history of complete, broken-off and aborted requests, concurrent requests for one entry, failing or short writes and crashes of the server went before, a response carries either the body its origin sends for it or the complete body stored earlier for exactly the same path and ETag - never a truncated, mixed or foreign one; a response its origin broke off is never completed by the cache or stored. A completely stored body is used from then on, also after a restart; faults of the cache never fail the request. Only GET responses with status 200 and exactly one ETag are stored.',
     ['histories', 'crash points', 'faults', 'schedules'], 'all histories of up to 3 requests of 22 (9 at depth 3) outcomes incl. ENOSPC, EIO, EINTR at each cache file operation and short writes, followed by two plain requests, with one and two cache layers x 1 (3) body sizes; a crash at every file system operation of a store x 3 (7) sizes x 2 paths x 3 previous states, then restart; all interleavings of 2 (3) concurrent requests with success, break-off, abort; 6 (12) sizes x 3 framings x segmentations; 63 uncacheable combinations; pairs of 14 paths x 16 ETags',
     'the test stores one body once; corruption needs a fault, crash or overlap at a particular point',
     ['src/modules/mod_cache_disk_etag.c', 'src/main/filter.c', 'src/main/stat_cache.c'],
     [('cache filter and file publication', 'src/modules/mod_cache_disk_etag.c')],
     'Each history runs on the real server with scripted backends and file system calls intercepted to fail, be cut short or kill the process; every response is compared with the set of bodies a model of the cache allows (checks/c25.py).',
     SIM + ' Crashes are process crashes: loss of unsynced data at power failure is not modelled. After an abort by the client the entry may be stored or not.', ['client socket', 'backend socket', 'cache directory'])

prop('C30', 'Generated pages show exactly what is there and cannot be subverted by names',
     'A directory listing contains exactly the entries of the directory that its options do not hide (dot files, backups, directories, excluded prefixes and suffixes, header and readme), each with its name, a link that leads to exactly this entry, its size, time and type, whatever bytes the names contain; HEADER.txt and README.txt are included, encoded or hidden exactly as configured, and a directory without trailing slash redirects to itself with one. Names of files, paths, hosts and query strings of any client, in listings as on the status page, are shown as text and never become elements or attributes of the page.',
     ['inputs', 'configurations'], 'every byte value in names of files and directories plus 40 hostile names, links followed; all combinations of the header and readme options x 17 directories, of the hiding options x 7 exclusion lists (all 512 combinations in thorough); 19 file sizes; every printable byte and 9 payloads in path and query of another connection and in the refresh parameter of the status page',
     'tests cover one listing with harmless names; injection depends on single bytes',
     ['src/modules/mod_dirlist.c', 'src/modules/mod_status.c', 'src/common/encoding.c', 'src/main/virtualrequest.c', 'src/main/stat_cache.c'],
     [('directory listings', 'src/modules/mod_dirlist.c'), ('status page', 'src/modules/mod_status.c'), ('encoders', 'src/common/encoding.c')],
     'Real directories are listed by the real server and the page is parsed with an HTML parser; entries, resolved links and texts are compared with the directory, and the set of elements and attributes with that of a harmless page (checks/c30.py).',
     SIM + ' Links to names with control characters are checked but cannot be requested, the URL parser replaces such bytes.', ['client socket'])

prop('C33', 'Expiry headers, FLV seeking and progress reports are exact',
     'expire adds exactly the Expires date and max-age its rule describes, relative to the access or the modification time of the file and never in the past, keeps other Cache-Control directives, and malformed rules are refused when the configuration is loaded. flv delivers the file from the requested position on, preceded by an FLV header exactly when the position is inside of the file and not 0. progress.show reports of each tracked id exactly the most recent request with that id: running with the bytes received so far and the expected size, done or failed afterwards for the configured time, unknown otherwise; the JSONP callback is only ever a plain name.',
     ['inputs', 'histories'], 'all rules of one term over 3 bases x 7 units x 5-7 numbers, pairs (triples) of units, 8 modification times, 20 malformed rules; 6 file sizes x 13 positions x 6 query spellings x GET/HEAD; all histories of 6 (7) steps of two uploads with equal or different ids (start, partial body, full body, partial and full response, failures, aborts, time), both ids asked after each step; every byte in callbacks',
     'none of these modules has a test',
     ['src/modules/mod_expire.c', 'src/modules/mod_flv.c', 'src/modules/mod_progress.c', 'src/main/collect.c', 'src/common/utils.c'],
     [('expire', 'src/modules/mod_expire.c'), ('flv', 'src/modules/mod_flv.c'), ('progress', 'src/modules/mod_progress.c')],
     'All rules, positions and histories run on the real server under virtual time; results are compared with an independent calculation and a table of tracked requests (checks/c33.py).',
     SIM + ' One worker; the number of bytes sent is not judged. A request broken off after its response headers may be reported as done or failed.', ['client socket', 'backend socket'])

prop('C29', 'Load balancing delivers every request once, to a working backend, and recovers',
     'A request given to balance.rr or balance.sqf reaches exactly one backend connection and is answered exactly once with the answer of that backend. A backend which refused a connection is skipped while its hold-off lasts; if another backend works the request is served at once. If no backend works the request waits (no error), is tried again as soon as another request of a backend finishes or its hold-off is over (within 6 s), and is served once a backend is back. Round robin never skips a usable backend; sqf never prefers a backend with more running requests over a usable one with fewer. A request of a client that went away is not sent. A balancer used inside another one reports failure to the outer one instead of holding the request. Connects that hang, fail late or time out are treated as failures and leave no socket behind.',
     ['histories', 'faults'], 'rr and sqf with 1, 2, 3 backends; all histories of up to 6 operations (request, answer, broken connection, backend goes down / comes back, client goes away, 1.2 s or 6 s pass) with up to 3-4 overlapping requests from every initial combination of accepting and refusing backends; all histories of up to 5 operations with pending connects (success, failure, timeout); nested balancers up to 4-5 operations; thorough: one or two operations more',
     'the repository has no test of mod_balance; the state depends on the order of failures, answers and time',
     ['src/modules/mod_balance.c', 'src/main/backends.c', 'src/main/actions.c', 'src/main/virtualrequest.c', 'src/modules/mod_scgi.c'],
     [('selection, hold-off, backlog', 'src/modules/mod_balance.c'), ('connection pool, connect timeouts', 'src/main/backends.c'), ('fallback', 'src/main/actions.c:li_action_execute')],
     'All histories run on the real server with scripted backends under virtual time; the judge keeps an abstract balancer state (running requests, refusals and their times, waiting requests) and checks every connect attempt, its time and the final answers against it (checks/c29.py).',
     SIM + ' One worker (no transfer of pooled connections between workers); limits on the number of pool connections are not reachable from a configuration.', ['client socket', 'backend socket'])

prop('C28', 'Connections live exactly as long as they should',
     'A connection is closed when the client neither sends nor takes data for io.timeout during a request, or leaves it idle longer than keepalive.timeout between requests, and never earlier: every activity of that connection, and only of that one, restarts its clock. keepalive.requests, keepalive.timeout 0, the HTTP version and the Connection header decide which requests of a connection are answered; the last one announces the close. Never more connections are served than the limit, waiting ones are served as soon as enough others are gone, and none is forgotten. On SIGINT or SIGTERM the server takes no new connection, finishes the started requests as long as they make progress, closes the others and ends with status 0 within a bounded time.',
     ['schedules', 'histories'], 'io.timeout 10 and keepalive.timeout 3, 5, 9, 12: all combinations of 3 gap lengths at 6 points of two requests x 3 framings; 3 connections in 5 combinations of kinds x all activity patterns over 4 (5) steps of 4.2 s; all gap sequences of 4 (5) reads of a slow client; all sequences of 3 (4) out of 4 versions/Connection values x 6 limits x pipelined, sequential, backend; 6..12 (14) connections against a limit of 8 x kinds x closes; reuse of connection records for all sequences of 3 (4) groups of 0..4 connections over 300 s each; stop in each of 8 states, all pairs (triples) of states x finishing or not x 2 signals',
     'tests never wait, never fill the server up and never stop it while requests run',
     ['src/main/connection.c', 'src/main/worker.c', 'src/main/server.c', 'src/common/waitqueue.c', 'src/common/events.c', 'src/main/stream_simple_socket.c'],
     [('connection states and timeouts', 'src/main/connection.c'), ('timeout queues', 'src/common/waitqueue.c'), ('keep-alive queue, connection records', 'src/main/worker.c'), ('accepting, limits, stop', 'src/main/server.c')],
     'Every schedule runs on the real server under virtual time, with small socket buffers where the client reads slowly; the judge computes from the schedule when each connection must be open or closed (checks/c28.py).',
     SIM + ' Timeouts may fire up to a second late. How long a request may wait for its backend is not judged: the server applies io.timeout to it although a comment in connection.c says otherwise; not changed, as a client that takes no data of a streamed response relies on the same timer.', ['client socket', 'process exit'])

prop('C31', 'The configuration language means what its documentation says',
     'Every configuration text either has exactly the meaning its documentation gives it or is refused with an error and the server does not start; it never crashes the parser. Integers with base, sign and suffix, strings in all quoting styles with every escape, lists, key-value lists, the operators with their precedence and grouping, casts, variables local and global, user defined actions, includes, blocks and conditions evaluate to the documented value; white space and comments between tokens change nothing; names that do not exist, values of a wrong type, overflows, missing terminators and unbalanced brackets are refused.',
     ['inputs'], 'all token sequences of up to 3 (4) of 15 and up to 5 (6) of 9 tokens as parameters; all pairs of 16 operands x operators x unary operators; all groupings of 3-4 (5) operands; integers around all limits x bases x suffixes; every byte, escape and hexadecimal escape in 4 quoting styles; each kind of white space or comment at each position between tokens; 60 refused programs; all programs of up to 3 (4) statements over scopes, variables, actions and includes: 177k (1.3M) programs',
     'the tests use a dozen configurations; the language is infinite',
     ['src/main/config_parser.rl', 'src/main/value.c', 'src/common/value.c', 'src/common/value_impl.c', 'src/main/plugin.c', 'src/main/condition.c'],
     [('the parser', 'src/main/config_parser.rl'), ('values', 'src/common/value_impl.c'), ('actions and options by name', 'src/main/plugin.c')],
     'The real parser runs in a process per batch with a plugin whose action records the values it gets; an independent evaluator of the documented language says what they must be (harness/cfg.c, checks/c31.py).',
     'Exhaustive within the bounds on the real code under ASan. Not judged: white space before a suffix, cast(string) of lists, order of glob includes. Known finding: hexadecimal numbers with a suffix beginning with hexadecimal digits.', ['parsed values', 'errors'])

prop('C27', 'Logs are complete, exact and cannot be forged',
     'Every request that was answered is logged exactly once, in the log and format in force for it at its end, in the order of its connection; requests in keep-alive, pipelined, aborted by the client or finished while the server stops included. Each format specifier yields the documented value. Whatever bytes a client sends, its values stay inside of their field: one line per request, quotes, backslashes, control and non-ASCII bytes escaped reversibly. Interrupted, short and temporarily failing writes of the log lose, duplicate or mix nothing; a permanently failing one loses only its own line and does not disturb requests. Messages go exactly to the target configured for their level, and backend error output appears completely line by line. Malformed formats are refused when the configuration is loaded.',
     ['inputs', 'histories', 'faults'], 'every byte and 15 hostile strings (1785 pairs in thorough) in header, user, query, raw and encoded path x 9 logged fields; 4 methods x 9 resources x 4 keep-alive variants, pairs of requests, delays; all histories of 4 (6) operations on 2 connections (direct, pipelined, backend, half and full answers, aborts, logging off, other log); all write result sequences of up to 4 (6) out of 6 results over 3 lines, 2 errors at each position; stop in all combinations of up to 3 connections in 5 states x 2 signals; all 64 level maps; all backend error texts of up to 5 (7) tokens; 30 formats',
     'the test suite never looks into the access log',
     ['src/modules/mod_accesslog.c', 'src/main/log.c', 'src/main/worker.c', 'src/main/connection.c', 'src/main/response.c', 'src/modules/mod_fastcgi.c'],
     [('format and escaping', 'src/modules/mod_accesslog.c'), ('log thread, targets, levels', 'src/main/log.c'), ('log queue of workers', 'src/main/worker.c')],
     'All cases run on the real server under virtual time; the writes of the log thread are captured (and made to fail) at the system call and compared with the values of the request and response as seen by the client (checks/c27.py).',
     SIM + ' Malformed requests answered with 400 are not logged by lighttpd; not judged. %b may include chunk headers; %I is not judged for pipelined requests. Syslog and pipe targets are not implemented.', ['log files', 'client socket'])

prop('C22', 'Work handed between threads is done exactly once, in the right thread',
     'With several workers and helper threads no schedule loses, repeats or misplaces work and none uses memory that was freed. A job signalled from another thread runs afterwards in the thread of its owner, unless it was stopped, and never after it is gone. A tasklet runs once in a pool thread and its finish callback once in the owner thread, also if the pool is resized or freed meanwhile. A collect runs its function once in every worker and its callback once in the worker that asked, and is reported as broken, not forgotten, if the server stops. Memory blocks are given to one user at a time and returned to the system at the end. Workers that share a throttle pool together never get more than its rate and burst. A lookup in a shared fetch database gives every waiting user one result, computed once per entry and period of validity, and frees each entry exactly once. Workers that share a backend pool never use one connection for two requests or in a foreign thread, wake every waiting request with a connection or a failure, and close every connection.',
     ['schedules'], '2-3 threads or workers (plus network and client), 1-3 jobs, tasklets, collects, lookups or requests each; all schedules with at most 2 preemptions (1 for the largest scenarios: three workers with two collects, fetch with expiry and resolver, backend pools with network; one more in thorough) at every atomic operation, lock, queue operation, wakeup and access to memory used by more than one thread; 280 scenario variants',
     'a test run sees one schedule; the failing ones need a preemption inside of a window of a few instructions',
     ['src/common/jobqueue.c', 'src/common/tasklet.c', 'src/main/collect.c', 'src/common/mempool.c', 'src/main/throttle.c', 'src/common/fetch.c', 'src/main/backends.c', 'src/common/events.c', 'src/common/waitqueue.c', 'src/main/worker.c'],
     [('jobs', 'src/common/jobqueue.c'), ('tasklets', 'src/common/tasklet.c'), ('collect', 'src/main/collect.c'), ('memory pool', 'src/common/mempool.c'), ('shared rate limits', 'src/main/throttle.c'), ('shared lookups', 'src/common/fetch.c'), ('backend pools', 'src/main/backends.c')],
     'The real code is compiled with memory access instrumentation and run with its threads as coroutines under a controlled scheduler (harness/conc.c) which enumerates all schedules up to the preemption bound depth first by re-execution. Which memory is shared is learned from the executions until nothing new is found; memory always accessed with the same lock held needs no scheduling point. Freed memory is poisoned and every access to it is reported; each scenario counts runs, callbacks, results, threads and leaks. glib locks, atomics, queues and thread pools and libev are replaced by models with the documented behaviour.',
     'Stateless exploration of the real code under sequential consistency; weak memory effects are not explored. Not modelled: refreshing of fetch entries (no user in the tree); limits on the number of connections of a backend pool together with closed connections (not reachable from a configuration).', ['callbacks', 'memory'])

prop('C34', 'Answers do not depend on when file lookups finish',
     'Whether files are looked up in background threads, in the worker or without a cache: every request is answered exactly once, with what the file system held at some time between its arrival and its answer (listings: at most the time to live of the cache earlier). No order of lookups, other requests for the same or other files, broken connections, expiring cache entries and changing files leaves a request waiting, resumes a wrong one, uses an entry that is gone or skips or repeats an action; docroot lists, index lists, path info, conditions, listings and static files continue where they stopped. A request that needs no lookup never waits for the lookups of others.',
     ['schedules', 'histories'], '14 resources (docroot list, index list, path info, directory redirect, listing, conditions on the physical path); all event sequences (result arrives, result arrives unnoticed, client goes away, 4 s, 11 s) of up to 5 (7) after each resource; all pairs of 7 (10) resources x all interleavings with up to 4 (5) events; 3 requests for one resource; all sequences of up to 5 (6) events with changes of the file system; each mode of lookup and times to live of 0, 1 and 10 s: 187k histories',
     'tests send one request at a time to a server whose lookups finish at once',
     ['src/main/stat_cache.c', 'src/main/plugin_core.c', 'src/main/condition.c', 'src/modules/mod_dirlist.c', 'src/main/virtualrequest.c', 'src/main/actions.c', 'src/common/tasklet.c'],
     [('cache, waiting requests', 'src/main/stat_cache.c'), ('resumed actions', 'src/main/plugin_core.c'), ('conditions', 'src/main/condition.c'), ('listings', 'src/modules/mod_dirlist.c')],
     'The thread pool of the real server is replaced by one whose pending tasks run when the script says so; all histories are executed on the real server under virtual time and each answer is compared with the expected one for the states of the file system in its interval (checks/c34.py).',
     SIM + ' A lookup runs as a whole between two events of the worker (its interleavings with the worker at the level of memory accesses are part of C22). A lookup which ends after its entry expired is repeated; if all lookups take longer than the time to live the request goes on waiting, which is not judged.', ['client socket'])

prop('C10', 'Data survives short, interrupted and failing reads and writes',
     'What a client or backend receives does not depend on how the kernel cuts the reads and writes of a connection: short results, interruptions, full buffers and a missing sendfile change neither a byte nor the fate of the connection. A fatal error at any point ends that connection: what was sent is a prefix of the right data, nothing is sent twice or by mistake on another connection, the client of a broken backend gets an error or sees its response broken off, and no descriptor stays behind. A file which shrinks while it is sent breaks the response off; one which grows is sent with the announced length. A client which still sends when its last response is complete gets it whole: the connection is shut down for writing and closed some seconds later, not reset.',
     ['faults', 'inputs'], '20 kinds of requests (strings, files from 0 to 800000 bytes, ranges, HEAD, errors, compressed, pipelined, 3 backend protocols with and without uploads); all sequences of up to 4 (6) results out of 5 (short by different lengths, EAGAIN, EINTR, EINVAL for sendfile) for writes, sendfile, reads, backend reads and writes and pairs of them; 3-4 fatal errors after all sequences of up to 3 (5); cuts after each byte; files resized at 3 positions to 6 (36 pairs of) sizes; up to 2 (3) pieces of data from the client after the last response: 83k (3M) executions',
     'loopback sockets in tests practically never return short or interrupted results',
     ['src/main/network.c', 'src/main/network_writev.c', 'src/main/network_sendfile.c', 'src/main/network_write.c', 'src/main/stream_simple_socket.c', 'src/main/stream.c', 'src/main/chunk.c', 'src/main/connection.c', 'src/main/stream_http_response.c'],
     [('writing', 'src/main/network_writev.c'), ('files', 'src/main/network_sendfile.c'), ('reading', 'src/main/network.c'), ('socket streams', 'src/main/stream_simple_socket.c')],
     'Results of system calls on the sockets of the real server are scripted; each case runs the same request once without and once with the scripted results and compares the data and state of both connections (checks/c10.py).',
     SIM + ' A reset of a backend connection counts as its end if nothing else marks the end of the response (lighttpd treats it so on purpose).', ['client socket', 'backend socket'])

prop('C35', 'TLS connections carry the same HTTP exchange, or nothing',
     'Over TLS (mod_openssl, mod_gnutls) a client gets the responses, connection handling and backend requests it would get on a plain connection, however its flights, records and the writes of the server are cut, interrupted or delayed, and whatever other connections do. A connection that the server ends after a complete response ends with close_notify and is closed; a response that breaks off is never ended like a complete one. A changed byte, a plain-text request, a broken or unfinished handshake or a malformed host name executes no request, crashes and hangs nothing, and its connection is given up. The certificate is the one of the requested host name, or the configured fallback. With client certificates required no request is executed for a client without an acceptable one, also not with a session resumed from another listener, and the variables that describe the certificate come from the certificate only. No descriptor or connection is left behind, at whatever point a client goes away.',
     ['inputs', 'schedules', 'faults'], '2 libraries x TLS 1.2, 1.3 x 20 kinds of exchanges, kept alive and closed; cuts at all (all pairs at distance 11) positions of the client stream, 1-7 byte segments, records; all sequences of 3 (4) write and 2 (4) read results; clients leaving after each 23rd (each) byte and each handshake flight in 4 ways; 2 (9) changes of each byte of 3 flights; 31 server name extensions x position x ending, a hello cut and split into records at each position; 5 certificate policies x 6 client certificates x resumption within and across 7 listeners; backends cut off at each byte; all interleavings of two connections: 20k (150k) histories',
     'there are no tests of the TLS modules',
     ['src/modules/mod_openssl.c', 'src/modules/openssl_filter.c', 'src/modules/mod_gnutls.c', 'src/modules/gnutls_filter.c', 'src/modules/ssl_client_hello_parser.h', 'src/modules/ssl-session-db.h', 'src/main/stream_simple_socket.c', 'src/main/fetch.c'],
     [('OpenSSL stream', 'src/modules/openssl_filter.c'), ('GnuTLS stream', 'src/modules/gnutls_filter.c'), ('server names', 'src/modules/ssl_client_hello_parser.h'), ('client certificates', 'src/modules/mod_openssl.c')],
     'A TLS client (OpenSSL of Python) is driven step by step against the real server with its real TLS libraries; the keys are random, the histories (segments, results of system calls, closes, changed bytes) are enumerated. The oracle of an exchange is the same exchange on a plain connection (checks/c35.py).',
     SIM + ' The random numbers of TLS are not controlled: what is compared is the decrypted stream, and a mismatch counts only if it shows again on a new server. Close_notify to a client which never reads, and keep-alive timeouts (closed without close_notify), are not judged; verify-require without verify has no effect in mod_openssl.', ['client socket', 'backend socket'])
prop('C36', 'Lua scripts: faults stay in one request, state is per request, values keep',
     'A Lua script or plugin that fails to load, raises an error, uses a method without its object or returns nonsense costs at most its own request: the server goes on, also after any number of such requests, and every later request is answered as if nothing had happened. Globals a script sets live per handler and request and REQ per request, so neither later requests on the same connection nor concurrent requests that wait for the file system ever see them. A Lua condition is true exactly if the same condition of the main configuration is; attributes, headers and environment read and write what the main configuration sees; values passed between configuration and Lua arrive unchanged. A filter sees exactly the bytes of the body and its output is exactly what the client or backend gets, however the body arrives, and every filter is finished exactly once. A script loaded with a ttl is never served older than ttl plus stat cache.',
     ['inputs', 'schedules', 'histories'], '63 faulty and 7 good scripts: all (pairs in the thorough run) followed by all good ones; 9000 (20000) requests for each of 26 scripts; all orders of 2 (3) requests, 3 (4) lookups and one abort; 2 (3) successive requests x 4 handlers that set and read state; 210 conditions x 1152 requests; all sequences of up to 3 (4) of 17 header and 13 environment operations; 700 (5400) values; 12 attributes x writes; add_file with all offsets; 5 filters x framing x cuts x aborts; reload histories of up to 5 (6) events: 20k (150k) histories',
     'the Lua API is untested (the repository tests only start a few configurations)',
     ['src/main/core_lua.c', 'src/main/config_lua.c', 'src/main/virtualrequest_lua.c', 'src/main/request_lua.c', 'src/main/response_lua.c', 'src/main/physical_lua.c', 'src/main/chunk_lua.c', 'src/main/filters_lua.c', 'src/main/condition_lua.c', 'src/main/http_headers_lua.c', 'src/main/environment_lua.c', 'src/main/stat_lua.c', 'src/main/value_lua.c', 'src/main/actions_lua.c', 'src/modules/mod_lua.c'],
     [('environments', 'src/main/core_lua.c'), ('handler and plugins', 'src/modules/mod_lua.c'), ('filters', 'src/main/filters_lua.c'), ('conditions', 'src/main/condition_lua.c'), ('values', 'src/main/value_lua.c'), ('headers', 'src/main/http_headers_lua.c')],
     'Scripts are written for each group and loaded by the real server (lua.handler per worker, include_lua and lua.plugin with the shared state). Oracles: the marker texts of good scripts; the native condition or pattern evaluated on the same request; a Python model of header lists, environment, values and filters; the set of versions that were current within ttl + stat cache (checks/c36.py).',
     SIM + ' Objects that scripts keep after their request ended, and scripts that change the real globals through _G, are outside of the property (the documentation excludes them); a filter that returns GO_ON without using its input is called again at once by design; subrequests are disabled in the code.', ['client socket', 'backend socket', 'file system'])
prop('C37', 'Shipped Lua plugins protect and serve what they promise',
     'secdownload sends a protected file only for a URL that carries the digest of secret, path and time stamp, with a time stamp within the timeout; every other URL below the prefix gets 403 or 410 and no byte of a protected file. core.xsendfile replaces the response body of the backend by exactly the named file, however the backend sends its response, removes the header, and never sends a file outside of the given document root. auth.require_user lets in exactly the listed users, whatever characters their names contain. core.wsgi splits the path at the prefix. core.cached_html serves the same whether lookups of files are answered at once or later, in every order.',
     ['inputs', 'schedules', 'histories'], 'secdownload: all deletions, replacements, insertions and exchanges at each position of 2 (4) valid URLs, 9 ages x 5 notations, all moves of the border between path and time stamp, 2 uses at 6x6 times of links for -62..62 s; xsendfile: 3 configurations x 21 names x framing x bodies x cuts, all single cuts; 254 (600) user lists x 24 users; 5 prefixes x 380 URLs; cached_html: 18 directory contents x 7 URLs x all orders of up to 2 (3) events: 14k (36k) histories',
     'the plugins have no tests',
     ['contrib/core.lua', 'contrib/core__xsendfile.lua', 'contrib/core__cached_html.lua', 'contrib/secdownload.lua', 'contrib/secdownload__secdownload.lua', 'src/modules/mod_lua.c', 'src/main/value_lua.c', 'src/main/filters_lua.c', 'src/main/chunk_lua.c', 'src/main/stat_lua.c'],
     [('secdownload', 'contrib/secdownload__secdownload.lua'), ('xsendfile', 'contrib/core__xsendfile.lua'), ('wsgi, require_user', 'contrib/core.lua'), ('cached_html', 'contrib/core__cached_html.lua')],
     'The plugins are loaded from /repo/contrib by the real server; an independent Python model of the URL format, of path simplification and of literal user names decides every enumerated request (checks/c37.py).',
     SIM + ' What a client gets if the named file is missing or outside of the document root is judged only in that it is no file content (the plugin lets the response of the backend pass, or the request fails).', ['client socket', 'backend socket', 'file system'])
prop('C32', 'Memcached: hits are exactly what was stored, everything else is a miss',
     'memcached.lookup serves exactly the bytes of the value the cache returns for its own key, however the reply is cut, with other lookups before and behind it on the connection and with clients going away; a missing value, any malformed, oversized or cut off reply, a closed, refused or pending connection is a miss, costs at most the lookups under way, crashes nothing, and the cache is used again once it works. memcached.store stores exactly the complete bodies of 200 responses up to maxsize, one valid set command each with the configured flags and ttl, however the response arrives and the cache takes the bytes; nothing is stored of incomplete responses, of other statuses or for HEAD. Lookup and store with the same key pattern use the same key: the text itself if it is a valid key, else its hash. The Lua functions get, set and setq send and return the same, to the waiting request or the callback.',
     ['inputs', 'schedules', 'faults', 'histories'], '14 values: all 1, 2 (3) cuts of short replies, cuts around the borders of long ones, 3 patterns of short and interrupted reads; 35 faulty replies x cuts, a reply cut off at each byte; 2 and 3 lookups at once x 4 sets of values x cuts x aborts of each client; stores: 7 sizes around maxsize x 8 patterns of writes, 9 answers x cuts, 3 framings x 6 sizes x cuts x abort of backend or client, 2-6 stores at once; all bytes and 12 lengths in keys; all histories of up to 6 (7) requests, connect results and delays; 2 Lua operations x ttl x failure: 9k (40k) histories',
     'the repository has one test with a stub server: a miss and a hit in one piece',
     ['src/common/memcached.c', 'src/modules/mod_memcached.c', 'include/lighttpd/memcached.h'],
     [('protocol', 'src/common/memcached.c'), ('actions and Lua interface', 'src/modules/mod_memcached.c')],
     'The harness plays the cache, the backend and the clients of the real server; a model of the protocol says what the cache must see and which body each client must get (checks/c32.py).',
     SIM + ' The key in a reply is not compared with the one asked for (replies come in order), and a cache that never answers keeps its lookups waiting until it closes: both as designed.', ['client socket', 'backend socket', 'cache socket'])

prop('C21', 'Angel: one worker serves, restarts are graceful, requests stay within bounds',
     'Whatever the order of worker reports, crashes, closed connections, failing forks, SIGHUP and SIGTERM: a worker that came up and dies is replaced by exactly one new one; a worker that never came up is not restarted, but SIGHUP starts a new one; during a graceful restart the old worker is told to stop only when the new one is warmed up, the new one is told to run only when the old one is suspended or gone, and a failing new one leaves the old one serving; once all workers have done what they were told exactly one runs, a later SIGHUP works, and SIGTERM stops all workers, starts none and ends the angel with no descriptor left. Listening sockets for the same address are shared between old and new workers and closed when no instance uses them; only addresses allowed by allow_listen (by default ports 80 and 443) are bound and only files below /var/log/lighttpd2/ are opened. Messages are answered exactly once and in order however they are cut; malformed messages or misbehaving workers cost at most their own connection.',
     ['inputs', 'schedules', 'faults', 'histories'], 'all histories of up to 4 (5) events after 12 prefixes, up to 11 (13) events in all, with up to 2 living workers: each report of a well-behaved worker, exit, crash, closed connection, SIGHUP, SIGTERM, failing fork; of up to 3 (4) events with any report in any order and garbage; listen requests of 2 addresses in all histories of up to 3 (4) events after 5 prefixes; 53 kinds of messages x all cuts, pairs x cuts at borders (all cuts), long messages and sequences; 84 (211) sets of masks x 58 addresses; 1831 log paths: each history is followed by the completion described in the statement',
     'the test suite has no test of the angel at all',
     ['src/angel/angel_server.c', 'src/angel/angel_plugin_core.c', 'src/angel/angel_proc.c', 'src/common/angel_connection.c', 'src/common/angel_data.c'],
     [('instances', 'src/angel/angel_server.c'), ('sockets and permissions', 'src/angel/angel_plugin_core.c'), ('messages', 'src/common/angel_connection.c')],
     'harness/angel.c links the real angel library and event loop; fork, waitpid, kill, bind, listen, unlink and open are stand-ins which record what was asked for, the workers are played over the real socket pairs. Each history runs in a process of its own; after each event the started workers, signals, messages and open sockets are compared with a model of the two roles (current and replacing instance) and after each history the completion is checked (checks/c21.py).',
     'The workers are played, so the real worker\'s side of the protocol is bound only through the message format. Real fork, exec and setuid are not run.', ['fork', 'signals', 'messages', 'bound sockets', 'open descriptors'])
