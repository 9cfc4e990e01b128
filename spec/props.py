"""Source of properties.jsonl and MANIFEST.json (run spec/gen.py)."""
PROPS = []
NA = []


MISSED = []     # planted changes that no check catches


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=observe))


def na(id, reason):
    NA.append((id, reason))


P('P01', 'Shared state of the thread-safe classes is only touched under its lock',
  'Every access that an operation of a thread-safe class (bounded buffer, one-place variable, channel, counting semaphore, '
  'DNS cache, RPC server, reader/writer lock guards) makes to the state its mutex protects happens while that mutex of that same object is held. '
  'This holds on every path, including early returns, exceptions and the moment right after a wait returns.',
  ['schedules', 'programs'], 'every path of every externally callable operation, under every interleaving',
  'a missing lock shows only under a particular interleaving; the unit tests run a handful of schedules',
  ['src/concurrent', 'src/network/dns.cpp', 'src/network/cached_dns.cpp', 'src/network/rpc'],
  [('mutex-guarded members', 'src/concurrent/pcbuf.h, mvar.h, chan.h, qsem.cpp; src/network/dns.cpp; src/network/rpc/base.cpp')],
  'path-sensitive lock-set analysis over LLVM IR with inferred guarded members')

P('P02', 'A waiting thread tests its condition under the lock and re-tests after waking',
  'No operation blocks on a condition unless it has, holding the lock handed to the wait, just found that it must block; and after every '
  'wake-up, genuine or spurious, it re-examines the shared state before acting on it or reporting success.',
  ['schedules', 'programs'], 'every wait site, every wake-up including spurious ones',
  'spurious wake-ups and stolen wake-ups do not occur in the tests',
  ['src/concurrent', 'src/network/rpc'],
  [('wait loops', 'pcbuf::push/pop, mvar::take/put/read/swap, chan::read, qsem::wait, rpc_server::wait_until_stopped')],
  'typestate analysis of every condition wait site')

P('P03', 'No lost wake-ups: every enabling change is notified to the threads it enables',
  'Whenever an operation of the bounded buffer, the one-place variable, the channel, the counting semaphore or the RPC server changes state in a way that can let a '
  'blocked thread proceed, it notifies that object\'s waiters, after the change or inside the same critical section. Where several waiters, or waiters for '
  'different things, may be blocked on the same condition, all of them are woken.',
  ['schedules', 'programs'], 'every state change on every path of every operation, any set of blocked threads',
  'a lost wake-up needs a waiter blocked at a specific instant and often two or more waiters of different kinds',
  ['src/concurrent', 'src/network/rpc'],
  [('enabling changes and notifications', 'pcbuf, mvar, chan, qsem, rpc_server')],
  'dataflow: enabling-direction inference at wait sites plus must-notify typestate on every path')

P('P04', 'Blocking containers hand over each element once, in order, within capacity',
  'A successful put, push, take, pop, read, unget, swap, wait or signal on the bounded buffer, one-place variable, channel and counting semaphore transfers exactly the element (or amount) '
  'it was asked for exactly once, and an unsuccessful or merely observing one changes nothing. Nothing is inserted beyond capacity, nothing is taken from an empty container or '
  'an insufficient semaphore, and elements leave a queue at the end opposite to where they enter. A channel write reaches every attached reader.',
  ['schedules', 'histories', 'programs'], 'every path of every operation from every container state',
  'tests sample a few interleavings and states; overfull/empty transitions under contention are not reached',
  ['src/concurrent/pcbuf.h', 'src/concurrent/mvar.h', 'src/concurrent/chan.h', 'src/concurrent/qsem.cpp'],
  [('transfer operations', 'pcbuf, mvar, chan, qsem')],
  'typestate of container transfers: dominating room/element facts, exactly-once mutation, end opposition')

P('P05', 'Locks tell the truth: success is reported exactly when the lock state changed',
  'A lock, try-lock or unlock operation of the mutex, the recursive mutex, the reader/writer lock or a scoped guard reports success exactly when it acquired (released) the '
  'lock, readers take it shared and writers exclusively, and guards release exactly once, exactly when they acquired. A recursive mutex is released only by its owner and only by the '
  'matching last unlock, and its ownership survives a condition wait.',
  ['programs', 'schedules', 'fault_sequences'], 'every combination of mutex kind, owner, recursion depth and system-call outcome',
  'tests never make a lock call fail or a foreign thread unlock',
  ['src/concurrent/mutex.cpp', 'src/concurrent/mutex_impl.h', 'src/concurrent/rwmutex.cpp', 'src/concurrent/rwmutex.h', 'src/concurrent/condition.cpp', 'src/concurrent/lock.h'],
  [('lock operations', 'mutex_base, mutex, r_mutex, rw_mutex, condition::wait, scoped_lock, scoped_rwlock')],
  'finite-domain abstract interpretation of every lock operation over owner/count/system-call outcome')

P('P06', 'Locks are balanced, ordered and never self-deadlocking inside the library',
  'Every library operation releases on every exit, by return or by exception, exactly the locks it acquired; it never re-locks a non-recursive lock it holds, never unlocks one it '
  'does not hold, and never blocks on a condition while holding an unrelated lock. The order in which locks are nested is the same everywhere, so operations cannot deadlock against each other.',
  ['schedules', 'programs'], 'every path through every locking operation, all pairs of nested locks',
  'a leaked lock needs an exception at a specific point; an order inversion needs two threads in the right window',
  ['src/concurrent', 'src/network'],
  [('lock acquisition sites', 'all functions acquiring pfi::concurrent or std locks')],
  'path-sensitive lock balance plus lock-order graph acyclicity')

P('P07', 'A thread object runs its function once per start and never loses a thread',
  'start creates a thread exactly when a function is set and none is running and says so truthfully; join returns true exactly when it waited for the running thread; '
  'detach or destruction gives up a running thread exactly once. A failed or refused operation leaves the object usable. The started function is an independent copy that is '
  'called once and freed once whatever happens to the thread object.',
  ['histories', 'fault_sequences', 'programs'], 'every sequence of operations and every outcome of the system calls',
  'tests never make thread creation fail and use a few call sequences',
  ['src/concurrent/thread.cpp', 'src/concurrent/thread.h'],
  [('thread lifecycle', 'thread::impl::start/join/detach/~impl/start_routine')],
  'abstract object-state reachability (typestate automaton extracted from the IR) against a lifecycle specification')

P('P09', 'Descriptors, mappings, handles and raw memory are released exactly once',
  'Every descriptor, memory mapping, address list, raw memory block and database connection, statement or result that the library obtains is released exactly once: by the operation itself on '
  'every exit including errors and exceptions, or by the object that took ownership when it is closed, reopened, reused, moved from or destroyed. No operation releases or uses a handle '
  'that was already released.',
  ['programs', 'histories', 'fault_sequences'], 'every path and failure outcome of every acquiring operation; every sequence of operations on an owning object',
  'leaks and double releases appear on error paths and operation sequences that tests do not take, and do not fail an assertion when they happen',
  ['src/network', 'src/system', 'src/database', 'src/text/json', 'src/data'],
  [('owning classes', 'stream_socket, server_socket, mmapper, decoder, json_parser, mysql_statement, mysql_connection_impl, postgresql_connection_impl, postgresql_result'),
   ('acquiring functions', 'normal_dns_resolver::resolve, server_socket::accept, ipv4_address helpers')],
  'ownership/typestate dataflow over system handles with abstract object-state reachability')

P('P35', 'Timed and non-blocking operations keep their limit and report what happened',
  'A timed push or pop never waits longer than the limit it was given however often it is woken, and returns false exactly when it gave up without transferring anything. '
  'A try operation never waits and returns true exactly when it transferred. The deadline that timed waits and timed reader/writer locks hand to the system is the time now plus the limit, and a guard or lock given the limit 0 never waits without limit.',
  ['schedules', 'programs'], 'every path and any number of early or spurious wake-ups',
  'tests use one limit and one wake-up',
  ['src/concurrent/pcbuf.h', 'src/concurrent/mvar.h'],
  [('timed waits', 'pcbuf::push/pop with timeout, mvar::try_take/try_put')],
  'dataflow of the remaining-time computation plus outcome typestate')

P('P24', 'A remote call delivers its arguments and result intact or throws',
  'For every number of arguments from 0 to 9, a remote call sends the procedure name, the version and all arguments in order and completely before it waits for the answer; the server calls '
  'the registered function exactly once, with exactly these arguments in this order, only if all of them arrived; and it answers with the success code and exactly the value the function returned. The '
  'caller returns a value only if the success code and the whole result arrived; otherwise it throws. A connection is given back for reuse exactly once, only after a complete exchange.',
  ['programs', 'inputs', 'fault_sequences'], 'every arity, all argument types, any point at which the connection can break',
  'tests call a few arities with equal types over connections that never break',
  ['src/network/rpc/caller.h', 'src/network/rpc/invoker.h', 'src/network/rpc/reflect.h', 'src/network/rpc.h'],
  [('client stubs', 'caller0..caller9'), ('server stubs', 'invoker0..invoker9')],
  'path-sensitive event-order dataflow over stubs instantiated with pairwise distinct opaque types (type-level witness plus typestate)')

P('P25', 'The RPC server answers each request once and runs only what was asked for',
  'The server runs a procedure only for a completely received request naming a registered procedure with exactly the server\'s version, and at most once per request. Unknown names, version '
  'mismatches, pings and valid requests each get exactly one, flushed, answer; after an error answer the connection is closed; a failing call does not end the server thread. A client uses a '
  'connection only after a ping on it was answered, and turns the error answers into the matching exceptions with the server\'s data.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of requests and every point at which a connection can break',
  'tests use well-behaved peers; truncated requests and dying connections are not sampled',
  ['src/network/rpc/base.cpp', 'src/network/rpc/caller.h', 'src/network/rpc/exception.h'],
  [('server loop', 'rpc_server::process'), ('connection check', 'rpc_client::get_connection'), ('error answers', 'gen_exception')],
  'request-segmented typestate over all paths of the dispatch loop; constant propagation of control texts on both sides')

P('P27', 'stream_socket delivers and sends every byte once and in order',
  'For every sequence of read, getc, getline, write, puts and flush on a stream_socket: the bytes handed out are those received, each once and in order, whatever mixture of buffered and direct reads delivers them; read returns the number of bytes it delivered and '
  'delivers fewer than asked only after a receive failed or ended; getc returns bytes as 0..255 and -1 only at the end; getline stores every byte it takes up to the newline, which it drops together with a carriage return before it; the bytes written are sent each once and in order, buffered ones '
  'before those sent directly; write returns the number of bytes given unless a send failed; flush leaves the buffer empty and reports success (negative) exactly if everything was sent; puts reports success exactly if the whole string was taken; no access leaves the buffers. An interrupted recv, send, accept or connect is repeated; '
  'a failed or ended transfer closes the socket; a new descriptor starts with empty buffers.',
  ['inputs', 'histories', 'faults'], 'every path through each operation for every buffer state, size and transfer result',
  'tests send short messages over a loopback connection where every transfer is complete',
  ['src/network/socket.h', 'src/network/socket.cpp'],
  [('bytes-read', 'stream_socket::read'), ('bytes-write', 'stream_socket::write'), ('bytes-flush', 'stream_socket::flush'), ('transfer-recv', 'stream_socket::recv'), ('line-getline', 'stream_socket::getline')],
  'value numbering with ghost positions, loops in closed form, linear consequence')

P('P28', 'SQL parameters and columns are bound by position, completely and in range',
  'Executing or running a statement with n values (0 to 10) binds exactly these n values, the k-th value to the k-th parameter, and returns the backend\'s result. Fetching a row into n variables (1 '
  'to 10) returns false without touching them when there is no row, throws without touching them when the row does not have exactly n columns, and otherwise assigns each variable from its own column with '
  'its own type. Values are converted for the backend according to their class, and a missing value is bound as NULL. No element outside a row or parameter list is ever accessed.',
  ['inputs', 'programs'], 'every arity, all argument types, every row length',
  'no test talks to a database; the overload families are written out by hand per arity',
  ['src/database/statement.h', 'src/database/connection.h', 'src/database/mysql/value.cpp', 'src/database/postgresql/value.cpp', 'src/database/type.h'],
  [('binding', 'statement::execute, connection::run'), ('fetching', 'statement::fetch_row'), ('conversion', 'to_bind, bind_length, sql_to_str')],
  'abstract interpretation of list contents over all arities instantiated with distinct opaque types; per-class dispatch typestate')

P('P29', 'Transactions end with exactly one commit or rollback; database errors surface',
  'A transaction block begins one transaction and ends it exactly once: with a rollback when it is left by an exception, with a commit otherwise, and a failing commit is reported by an exception. '
  'Every failure reported by the MySQL or PostgreSQL client library while connecting, beginning, committing, rolling back, preparing, binding, executing or fetching surfaces as an exception (or as the error code of '
  'the query function) unless a retry of the same step succeeded; the end of the rows is reported as false and only then. Values are bound only if their number is what the statement expects.',
  ['fault_sequences', 'histories', 'programs'], 'every combination of outcomes of the client-library calls on every path',
  'no database server is available to tests, and failures of individual calls cannot be provoked',
  ['src/database/util.h', 'src/database/mysql', 'src/database/postgresql'],
  [('transaction guard', 'committer'), ('backends', 'mysql_connection, mysql_statement, postgresql_connection, postgresql_statement')],
  'path-sensitive error-propagation dataflow over the outcomes of client-library calls; typestate of the transaction guard')

P('P08', 'Objects that own a lock, handle or buffer cannot be duplicated',
  'Mutexes, conditions, scoped locks, threads, the blocking containers, sockets and socket streams, the RPC server, the DNS cache, memory mappings, scoped pointers, archives, the JSON parser, the bit '
  'decoder, the sparse matrix reader and writer and the owners of database handles can be neither copied nor assigned: a program that duplicates one does not compile. (A scoped reader/writer guard may be copied, which hands the lock over, but not assigned.)',
  ['programs'], 'every program using these classes',
  'a test cannot contain a program that must not compile; an accidental copy shows up as a double close or double unlock elsewhere',
  ['src/concurrent', 'src/network', 'src/system', 'src/data', 'src/text', 'src/database', 'src/lang'],
  [('non-copyable owners', 'pfi::lang::noncopyable and the classes deriving from it')],
  'compile-fail witnesses over the current headers (type-level)')

P('P33', 'Calls on separate objects never interfere through hidden shared state',
  'The library keeps no hidden mutable state: any number of threads may use separate objects and the free functions at the same time. Every variable with static storage that the library writes after '
  'its (thread-safe) initialisation is only accessed under one static lock, or atomically, or is thread-local; and no library function uses a C library function that keeps its result in static storage (such as localtime or strtok) where a '
  'reentrant one exists.',
  ['schedules', 'programs'], 'every function of the library, all pairs of concurrent calls',
  'a data race on a hidden static corrupts results only under a particular interleaving',
  ['src'],
  [('static data', 'stream_socket::resolver, singleton<T>::p, tables in md5, base64, ustring'), ('time conversion', 'system/time_util.cpp')],
  'whole-program lint with lock-set dataflow over every static variable')

P('P34', 'Destroying an object never throws and never ends the program',
  'No destructor of the library lets an exception out, whatever state the object, its connection or its peer is in; failures while cleaning up are swallowed. The single exception is the end of a database '
  'transaction block, which reports a failed commit by an exception unless one is already being handled.',
  ['fault_sequences', 'histories'], 'every path of every destructor including what it calls',
  'tests do not destroy objects whose connection has failed',
  ['src'],
  [('destructors', 'postgresql_connection, mysql_connection, sockets, mmapper, tag_inserter, ...')],
  'exception-flow analysis of every destructor over the inlined IR and class hierarchy')

P('P11', 'What is serialised is what deserialising gives back',
  'Reading a binary archive that was written from a value gives an equal value, whatever the target held before: containers (vector, deque, list, set, map, unordered_map, unordered_set, string) write their size '
  'and then every element once in order, and reading discards the old content, takes exactly that many elements and puts each into the container once and in order; pairs, fixed arrays and interned dictionaries transfer every part in the '
  'same order in both directions; scalars use their full width in little-endian order; a stream of bytes is escaped so that every byte value survives and its end is recognised.',
  ['inputs', 'histories'], 'all sizes (including empty), all element values, any previous content of the target',
  'a test writes a few small containers and reads them into fresh ones',
  ['src/data/serialization', 'src/data/serialization.h', 'src/data/intern.h'],
  [('containers', 'serialize(Archive&, std::vector/deque/list/set/map/string&), unordered_*'), ('scalars', 'gen_serial_binary_iarchive, gen_serial_binary_oarchive'), ('streams', 'serialize(Archive&, std::iostream&)')],
  'loop-summarising dataflow over transfers with opaque element types, both directions compared; exact byte-domain transducer for streams')

P('P12', 'Reading a truncated or broken archive is safe and terminates',
  'When an archive ends too early or holds nonsense, deserialising still returns: every loop that reads can be left once the archive has failed. A scalar variable is assigned only if its bytes were really read, elements put into a '
  'container are never uninitialised, and an id that came from the archive never selects an element outside the table it indexes.',
  ['inputs', 'fault_sequences'], 'every truncation point and every content of an archive',
  'tests read complete archives only',
  ['src/data/serialization', 'src/data/intern.h'],
  [('scalar readers', 'gen_serial_binary_iarchive'), ('container readers', 'serialize(Archive&, ...)'), ('stream reader', 'serialize(Archive&, std::iostream&)'), ('dictionary', 'intern::serialize')],
  'definite-initialisation and guard dataflow; cycle analysis with archive tests resolved to failed; bounds-guard lint')

P('P13', 'Base64 text decodes to exactly the bytes that were encoded, and only then',
  'base64_encode yields, for any bytes of any length (including zero bytes and bytes above 127), the standard padded base64 text; base64_decode maps every such text back to the original bytes and rejects, by an exception, '
  'any text whose length is not a multiple of four or that contains a character outside the alphabet (padding aside).',
  ['inputs'], 'every byte string of every length; every 4-character block',
  'tests cover a few ASCII strings',
  ['src/data/encoding/base64.cpp', 'src/data/encoding/base64.h'],
  [('encoder', 'base64_encode'), ('decoder', 'base64_decode, toint')],
  'abstract interpretation in an exact bit domain (each output bit as a boolean function of one input byte), loops summarised by a generic iteration')

P('P15', 'UTF-8 conversion accepts exactly well-formed UTF-8 and never runs past the input',
  'chars_to_uchar turns the next well-formed UTF-8 sequence (as Unicode defines it: no overlong forms, no surrogates, nothing above U+10FFFF) into its code point and consumes exactly its bytes. On anything '
  'else it applies the fallback, U+FFFD by default or an exception, consumes at least one byte when there is one, and never examines or steps over bytes beyond the end. uchar_to_chars writes the UTF-8 form '
  'of every code point up to U+10FFFF and nothing for larger values; the conversions of whole strings convert every character up to the end of the string, NUL included, once and unchanged.',
  ['inputs'], 'all byte sequences, all positions of the end, all 32-bit code points',
  'there are four billion 4-byte sequences; the tests use a few Japanese strings and some malformed ones',
  ['src/data/string/ustring.h', 'src/data/string/ustring.cpp'],
  [('decoder', 'chars_to_uchar_impl, fallbacks'), ('encoder', 'uchar_to_chars'), ('strings', 'string_to_ustring, ustring_to_string, uchar_to_string')],
  'abstract interpretation in an exact value-set/bit domain: accepting boxes compared with the table of well-formed sequences')

P('P16', 'Percent-encoding of any bytes is safe text that decodes to the same bytes',
  'uri_encode maps any byte string to text of unreserved characters, "%" with two hexadecimal digits, and "+" only; unreserved characters stay as they are; and uri_decode maps that text back to exactly the original bytes, '
  'for all 256 byte values. uri_decode takes any text to its end and never reads past it, even when an escape is cut off.',
  ['inputs'], 'all byte strings; every text given to the decoder',
  'tests use printable samples, not every byte value or truncated escapes',
  ['src/network/uri.cpp', 'src/network/uri.h'],
  [('encoder', 'uri_encode'), ('decoder', 'uri_decode')],
  'abstract interpretation in an exact value-set domain of the generic loop iteration, all 256 codes compared')

P('P23', 'Rendered XHTML is balanced and all text in it is escaped',
  'html_encode replaces each of & < > " \' by an entity that stands for it and leaves every other byte as it is, for strings of any content. The renderers of the XHTML builder write every element as <name attributes/> or as '
  '<name attributes>children</name> with the same name, each attribute as name or name="value" separated by white space, and every child once and in order; every name, value and text they write has '
  'passed through html_encode, raw elements aside.',
  ['inputs', 'histories'], 'every tree, every attribute list, every text',
  'tests render a few small pages with harmless text',
  ['src/text/xhtml.cpp', 'src/text/xhtml.h'],
  [('escaping', 'html_encode'), ('renderers', 'text::xhtml::*_elem::render')],
  'abstract interpretation of the output word of every path of the renderers, with html_encode results tracked as escaped')

P('P14', 'Byte-order conversions move every byte to exactly the right place',
  'For every value of every integer and floating-point type, reverse() returns the same bytes in the opposite order (and reverse over a buffer reverses it in place, whatever its size, touching nothing else); to_little/from_little return '
  'the value unchanged on a little-endian machine and reversed on a big-endian one, to_big/from_big the other way round, so from_x(to_x(v)) == v and the bytes on the wire do not depend on the machine.',
  ['inputs', 'programs'], 'all values of all types, both byte orders, all buffer sizes up to 33',
  'tests try a few values, and only on the byte order of the build machine',
  ['src/system/endian_util.h', 'src/system/endian_util.cpp'],
  [('conversions', 'endian::reverse, to_little, from_little, to_big, from_big')],
  'byte-provenance dataflow in an exact bit domain with the byte order symbolic')

P('P17', 'JSON text written is valid and reads back the same; malformed JSON is rejected',
  'Writing: every character of a string, NUL and supplementary ones included, appears once between the quotes, raw if JSON allows that or as an escape that stands for it (\\u digits, surrogate pairs); arrays and objects, printed or '
  'pretty-printed, are written with exactly the brackets, commas and colons of JSON; booleans and null are written as their words. Reading: each escape gives its character, \\u takes four hexadecimal digits, surrogates only in pairs; '
  'unknown escapes, raw control characters, bad digits, missing or extra commas or colons in arrays and objects and numbers out of range are rejected; keywords and numbers are reported as what they are, with their text used up and the character after them kept; the tree built holds every value once, in order, under its own key; the reader never loops without consuming '
  'input and never overruns its string buffer.',
  ['inputs'], 'every string, every tree shape, every input text',
  'tests cover a handful of documents, not every character, escape or malformed shape',
  ['src/text/json/base.h', 'src/text/json/parser.cpp', 'src/text/json/parser.h'],
  [('writer', 'json_string::print'), ('string literals', 'json_parser::parse_string_prim'), ('structure', 'json_parser::parse_array')],
  'abstract interpretation in an exact value-set domain per character and escape; control-flow words against the JSON grammar automaton')

P('P30', 'Fixed-size vector operations compute their linear-algebra formulas',
  'For vectors of 2, 3, 4 and any other fixed dimension (both the named-component and the array flavour): construction, writeToArray, +, -, unary -, scaling, division, +=, -=, *=, /= (also a+=a, a-=a and scaling by a component of the vector itself), '
  'inner product, outer product, norm, abs, normalize and projection give exactly the component-wise formula of linear algebra; == holds if and only if all components are equal; < is the lexicographic order; operator[] and stream '
  'input and output address each component once and in order.',
  ['inputs'], 'all component values, aliased operands included; rounding is not judged',
  'tests sample a few random vectors and do not alias operands',
  ['src/math/vector.h'],
  [('operations', 'pfi::math::vector::* operators')],
  'value numbering of each operation to rational functions of the components, compared with the formula as polynomials')

P('P32', 'Rationals keep their exact value, in lowest terms with a positive denominator',
  'For ratio<int> and ratio<long>: construction (from nothing, from an integer, from a numerator and a non-zero denominator of either sign) and +, -, *, /, +=, -=, *=, /= give the exact rational value of the operands, '
  'also when both operands are the same object (a+=a, a*=a, a/=a); the result is always in lowest terms with a positive denominator; == is equality of the values. The gcd used returns the positive greatest common divisor for any signs of its '
  'arguments. Overflow of the integer type and division by zero are excluded.',
  ['inputs'], 'all numerators and denominators without overflow',
  'tests cover a few small values, not all signs, aliasing or large values',
  ['src/math/ratio.h'],
  [('arithmetic', 'pfi::math::ratio operators'), ('normal form', 'ratio::gcd')],
  'value numbering to rational functions with gcd as an indeterminate; sign analysis; loop-invariant rule for Euclid')

P('P39', 'Clock times add and compare exactly; calendar times convert field by field',
  'clock_time: a+b, a-b, a+=b, a-=b (also with themselves) keep the total in microseconds exact and leave 0 <= usec < 1000000 whatever the operands; the order is that of (sec, usec); conversion to double is '
  'seconds plus usec/10^6. get_clock_time returns the time of day in these units. calendar_time: each field converts from and to struct tm with the right offset (month 1-12, full year), microseconds are kept, and no uninitialised field reaches mktime.',
  ['inputs'], 'all operand values without overflow',
  'tests add a few positive times; negative, unnormalised or self operands are not covered',
  ['src/system/time_util.h', 'src/system/time_util.cpp'],
  [('arithmetic', 'clock_time operators'), ('conversion', 'calendar_time')],
  'value numbering between loop heads plus interval analysis over the loop conditions')

P('P31', 'Random numbers are MT19937, and every derived draw follows its formula and range',
  'For every seed, mtrand(seed) produces exactly the MT19937 sequence (32-bit outputs of next_int()). next_double() is (x*2^26+y)/2^53 with x, y the top 27 and 26 bits of the next two outputs, so it is in [0,1); next_int(a) is floor(a*u), in [0,a); '
  'next_int(a,b) is a+floor((b-a)*u); next_double(a), next_double(a,b) scale u likewise; next_gaussian gives the Box-Muller pair of two uniform numbers in (0,1], the second value being kept and used exactly once. '
  'sample_with_replacement gives k values floor(n*u) and refuses n<=0 or k<0; sample_without_replacement refuses k>n too and gives k distinct values of [0,n) by exchanging position i with a uniform position of [i,n).',
  ['inputs', 'histories'], 'all seeds, all states, all arguments',
  'tests check averages and samples; no output is compared with MT19937',
  ['src/math/random.h', 'src/math/random/mersenne_twister.cpp', 'src/math/random/mersenne_twister.h'],
  [('generator', 'mersenne_twister::next'), ('draws', 'pfi::math::random::random'), ('sampling', 'sample_without_replacement')],
  'dataflow in the domain of GF(2)-linear words compared with the published recurrence; value numbering of the derived draws')


P('P18', 'LRU caches keep to capacity, evict the least recently used, serve nothing stale',
  'pfi::data::lru<K,V>(n), n > 0, for every sequence of operations: at most n entries; get(k) and operator[](k) of a present key return the value stored under k and mark it as used, get of an absent key throws and changes nothing; '
  'touch(k) marks a present key as used and does nothing otherwise; has(k) changes nothing; set(k,v) leaves a present key as it is and otherwise adds it with value v, evicting only if the cache is full and then exactly the least recently '
  'used (added, touched, or read) entry; remove(k) forgets k only; clear() forgets everything. cached_dns_resolver(max_size, expire_second): a cached answer is returned only for the host and port it was resolved for and only if that '
  'resolution is less than expire_second ago (hits do not prolong it); at most max_size answers are kept, those with the oldest access being evicted; delete_cache and clear_cache forget; every entry has exactly one record in the access order.',
  ['histories', 'inputs'], 'every operation from every state in which map and order agree, any number of entries',
  'a test plays a handful of keys; staleness and double records need long histories or a clock',
  ['src/data/lru.h', 'src/network/dns.cpp'],
  [('lru', 'pfi::data::lru'), ('dns', 'cached_dns_resolver::impl::resolve')],
  'abstract interpretation over container states (membership of keys, tuples inserted and erased), invariant checked at every return, loop head and lock release')

P('P19', 'intern is a bijection between keys and the ids 0..size-1',
  'For every history of intern<K>: key2id(k) of a present key returns its id and changes nothing; of an absent key it returns -1 and changes nothing if gen is false, and otherwise adds k with id = size() before and returns that id; '
  'key2id_nogen never adds; id2key(i) is the key that was given id i; exist_id(i) iff 0 <= i < size(); exist_key(k) iff k has an id; size() is the number of keys and empty() is size()==0; clear forgets all keys; swap exchanges the whole contents.',
  ['histories', 'inputs'], 'every operation from every state in which the two containers are inverse to each other',
  'tests intern a few words',
  ['src/data/intern.h'],
  [('bijection', 'intern::key2id'), ('lookup', 'intern::exist_id')],
  'abstract interpretation over container states, invariant checked at every return')

P('P22', 'HTTP messages have the stated form, body framing and header fields',
  'request::send and response::send put exactly the start line (method SP uri SP HTTP/major.minor CRLF, resp. HTTP/major.minor SP code SP reason CRLF), then each header field in order as name: value CRLF, an empty line, and then the body if it is not empty; '
  'a Content-Length field holding the length of the body is added if and only if no field of that name is present and the body is not empty; a start line, header field or body that cannot be put and a flush that fails raise http_exception. '
  'A received message without a well-formed HTTP version in its start line raises http_exception; its body is chunked if and only if Transfer-Encoding equals chunked ignoring case, otherwise counted by Content-Length if that is non-empty, otherwise the rest of the connection. '
  'Header fields are found ignoring case, as the first field whose names match over their whole length: has_key says whether there is one, operator[], get and set use it (adding one at the end only if there is none), erase removes that one only.',
  ['inputs', 'histories'], 'all methods, codes, reasons, header fields and bodies, and all outcomes of the socket calls',
  'the tests exchange a few well-formed messages',
  ['src/network/http/base.cpp', 'src/network/http/base.h'],
  [('sending', 'http::request::send, http::response::send'), ('fields', 'http::header')],
  'value numbering with strings as sequences of pieces, per path through each function')

P('P26', 'HTTP bodies deliver exactly the bytes that their framing announces',
  'The body stream of a message with Content-Length n takes at most n bytes of the connection (none if n <= 0) and delivers each once, in order, as 0..255, then end of file. The body stream of a chunked message delivers exactly the data bytes of the chunks, in order, whatever their values: '
  'a size line is read only when the chunk before is used up, as a hexadecimal number, and one that is negative is refused; no more than the rest of the chunk is read; bytes are delivered only if they were received, so a connection that ends within a chunk delivers none of the missing ones; '
  'after the data of each chunk its line end is taken and checked; after the last chunk the trailer is skipped up to its empty line and nothing more is taken from the connection.',
  ['inputs', 'histories'], 'all byte values, chunk sizes and ends of the connection',
  'the tests read a few text bodies',
  ['src/network/http/base.cpp'],
  [('chunked', 'basic_httpbody_chunked_streambuf'), ('counted', 'basic_httpbody_streambuf')],
  'value numbering with ghost counts of announced and received bytes, per path, invariant checked at each return')

P('P20', 'A value of dynamic type is read only as the type it holds',
  'json: is<T>(j) and j.type() tell the class of the value; json_cast<T>(j) returns the stored value if j holds a bool (bool), an integer (int, long, long long), a float or an integer (float, double) or a string (string) and otherwise throws json_bad_cast; '
  'json_cast_with_default<T>(j, d) returns it in the same cases and otherwise d; to_json of a bool, integer, floating or string value makes a value of that class holding it. j[name], count, add(name,v), merge, begin and end act on an object, j[i] and add(v) on an array, size on either, '
  'and on any other class they throw json_bad_cast. equals(a,b,conv): equal classes and equal contents (arrays: same length and equal elements at every position; objects: same size and equal values under every name, conv passed on), and an integer and a float are equal iff conv and numerically equal. '
  'Database: to_sql makes a value of the class of its argument; from_sql<T> returns the stored value if the value has that class (int64 also from int32, int32 also from an int64 that fits), and otherwise throws database_error ("" for string). '
  'any_cast<T> returns the held object iff it is a T, else throws bad_any_cast; type() of an empty any is void. optional: ==, !=, <, >, <=, >= compare the values, an empty one being equal to an empty one and less than any value. None of these dereferences a null pointer or reads a value as another class.',
  ['inputs'], 'all dynamic classes of each value (and null where the interface allows it) times all stored values',
  'tests cast a few values to their own type; the pairs that do not match are the many',
  ['src/text/json/cast.h', 'src/text/json/base.h', 'src/database/type.h', 'src/lang/any.h', 'src/data/optional.h'],
  [('json', 'pfi::text::json::json_cast, equals'), ('database', 'pfi::database::from_sql'), ('any', 'pfi::lang::any::cast'), ('optional', 'pfi::data::optional')],
  'class-hierarchy evaluation of every path for each dynamic class, results compared as normal forms')

P('P36', 'A socketstream passes every byte once and in order and reports failure',
  'Reading through a socketstream returns the bytes of its socket in order, each once: looking at the next byte (underflow) keeps it for the read that follows, taking it (uflow) does not deliver it again, and a byte already looked at is returned before the socket is read again. '
  'A block write hands exactly the given bytes to the socket and returns how many it took (0 on failure); a single byte write and sync report success iff the socket took the byte or sent everything. '
  'A stream without a socket fails each of these operations instead of crashing, and is not connected. A stream given a new socket, by connect or setsock, forgets the byte looked at on the old one; a failed connect sets the fail bit and a successful one clears the state.',
  ['inputs', 'histories'], 'each operation in each state of the buffer (no holder, null socket, socket; byte looked at or not), all byte values and results of the socket',
  'tests exchange lines over one healthy connection',
  ['src/network/iostream.h'],
  [('stream buffer', 'pfi::network::basic_socketstreambuf'), ('stream', 'pfi::network::basic_socketstream')],
  'path evaluation of the buffer operations per abstract state of the buffer, with the virtual calls resolved')


P('P37', 'md5sum is the MD5 digest (RFC 1321) of exactly the bytes given',
  'For every byte sequence of every length, given as a range, a string or a stream, md5sum holds the four words RFC 1321 defines: the initial state, the 64 steps of each block, the padding (0x80, then zeros, also when it needs a block of its own) '
  'and the length in bits as a 64-bit number, whatever the byte values and however long the message. operator< is the lexicographic order of the four words as unsigned numbers, and operator<< writes 32 hexadecimal digits, two for each byte, in order.',
  ['inputs'], 'any state and any block for the block function; for the padding every number of bytes left in the last blocks and every total length up to 2^61 bytes',
  'tests hash a handful of short strings; no test has a message of 2^29 bytes or more',
  ['src/data/digest/md5.h', 'src/data/digest/md5.cpp'],
  [('blocks', 'pfi::data::digest::md5sum::calc'), ('padding', 'pfi::data::digest::itr_buf::get')],
  'value numbering modulo 2^32 with truth tables for bitwise functions, compared with the RFC as normal forms')

P('P21', 'A csv_parser delivers exactly the fields of the text and stays within its memory',
  'For every text, of any length and content (NUL bytes apart) and ending anywhere, csv_parser delivers its rows in order: fields separated by commas, rows ended by LF or CR LF or the end of the text, a field that starts with a quote taken up to its closing '
  'quote with commas, line ends and doubled quotes (as one quote) inside, and whatever follows the closing quote up to the separator dropped; other quotes are ordinary characters. A trailing comma makes an empty last field; a final line end makes no further row. '
  'The text is never read at or behind its end, nothing is written outside the row buffer, and all fields of a row stay valid and unchanged when the buffer grows or the row is copied.',
  ['inputs'], 'all texts (abstract transducer, any length), all positions at which the buffer fills up',
  'tests parse a few short well-formed rows, shorter than the first buffer and never cut off',
  ['src/text/csv.h'],
  [('reader', 'pfi::text::csv_parser::parser_impl::next'), ('growth', 'pfi::text::csv_parser::parser_impl::extend'), ('copy', 'pfi::text::csv_parser::parser_impl::copy')],
  'finite transducer extraction from the control flow graph, compared in step with a transducer of the format; typestate of cursor, buffer room and addresses')
