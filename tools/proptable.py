TECH = 'function contracts on the real code (clang IR), own VC generator, z3'
R = 'lib/include/dots/serialization/formats/CborReader.h'; W = 'lib/include/dots/serialization/formats/CborWriter.h'
prop('C01', 'CBOR values survive a write/read round trip', 'Whatever value of a supported scalar type, string or byte array is written to the CBOR format, reading the written bytes back as the same type yields the same value and consumes exactly the bytes that were written. The same holds for array and map sizes and for the begin and end markers of indefinite collections.',
     ['inputs'], 'all values of bool, (u)int8..64, float, double (bit patterns), strings and byte arrays of any length and content, all sizes', 'tests sample a few dozen values per type; the encodings switch form at many width boundaries and signs, and the statement is about all 2^64 values',
     [R, W], [('CborWriter::write', W), ('CborReader::read', R)], ['CborWriter::output()', 'CborReader::read()'])
claim('C01', TECH, 'Every writer and reader function is proved against its contract for all inputs (no bound), and read(write(x)) = x is a lemma over the two contracts. Assumes std::vector/std::string as sequences and successful allocation.')
prop('C02', 'CBOR output is the canonical definite-length encoding', 'Writing a value appends exactly its RFC 8949 encoding with the shortest possible head and leaves all previously written bytes unchanged. Integers, sizes and string lengths never use more head bytes than needed, and floating point values keep their own width.',
     ['inputs'], 'all values of every supported type and every prior content of the output', 'interoperability with other DOTS implementations needs every length class and boundary; tests compare a handful of encodings',
     [W, 'lib/include/dots/serialization/formats/CborFormat.h'], [('CborWriter::write / writeHead', W)], ['CborWriter::output()'])
claim('C02', TECH, 'Proved for all inputs: output equals the RFC 8949 spec function byte for byte, frame included. Assumes std::vector/std::string as sequences.')
prop('C03', 'CBOR decoding of untrusted input is exact and memory safe', 'For arbitrary input bytes, reading a value either returns exactly the value encoded by the well-formed item at the current position and advances past exactly that item, or throws; acceptable input is never rejected. In no case is a byte outside the input read or the position moved outside of it.',
     ['inputs'], 'all byte sequences of any length, all positions, all target types', 'tests feed well-formed samples only; truncations and out-of-range heads at each position are an unbounded input space and come straight from the network',
     [R, 'lib/src/serialization/formats/CborReader.cpp'], [('CborReader::read / readHead / assertInputAvailable', R)], ['CborReader::inputData()', 'SerializerException'])
claim('C03', TECH, 'Proved for all inputs and positions, with memory safety of every access as obligations. Assumes std contracts; termination of the program after an allocation failure is not modelled.')
prop('C04', 'Skipping unknown CBOR data consumes exactly one item', 'Skipping in arbitrary input either advances past exactly the one well-formed item (of any nesting) at the current position, or throws because there is none; it never accepts malformed data, rejects a well-formed definite-length item, or moves outside the input.',
     ['inputs'], 'all byte sequences, all nestings and collection sizes', 'forward compatibility relies on skipping values of unknown properties of any shape; nesting and sizes are unbounded',
     [R], [('CborReader::skip', R)], ['CborReader::inputData()'])
claim('C04', TECH, 'Proved by induction over item structure (recursive contract, inductive loop invariants, termination measure) for all inputs. Stack depth for deeply nested input is not modelled; tags and indefinite-length items are rejected by design.')
T = 'lib/include/dots/type/'; TS = 'lib/src/type/'
prop('C05', 'Property sets behave as mathematical sets', 'A property set is exactly a set of property indices: union, difference, intersection, symmetric difference, complement, subset and proper subset tests, equality, emptiness, counting and construction from indices agree with the set operation they name, for all sets. Valid-property masks of instances, included-property masks and headers are built from nothing else.',
     ['inputs'], 'all pairs of 32-bit sets and all indices below 32', 'tests use a few sets; masks of every shape decide which properties are copied, compared, sent and applied everywhere in the system',
     [T + 'PropertySet.h'], [('PropertySet operators', T + 'PropertySet.h')], ['PropertySet::toValue()'])
claim('C05', TECH, 'Proved for all sets (bit vectors), including the counting loop. Indices of 32 and above are outside the precondition.')
prop('C06', 'Struct operations affect exactly the included properties', 'For every struct type, every pair of instances and every included-property mask: assigning makes exactly the included properties valid in the source valid in the target with the same values and all others invalid; copying and swapping affect exactly the included properties; merging overwrites exactly the included valid properties of the source, recursing into nested structs; clearing invalidates exactly the included ones. Constructing (also by copy or move, and type-erased) yields an instance with exactly the expected properties. A property is valid exactly if a constructed value lives in it: nothing is leaked, destroyed twice or used unconstructed, also when the operands are the same instance.',
     ['inputs', 'histories'], 'all struct types (any number and types of properties), all validity masks and values of both operands, all included masks, aliased operands', 'tests use one or two struct types and a few masks; every received event and every container update goes through these operations with arbitrary masks',
     [TS + 'StructDescriptor.cpp', T + 'Property.h', T + 'ProxyProperty.h', T + 'PropertyContainer.h', T + 'PropertyIterator.h', T + 'PropertyPairIterator.h', T + 'StaticStruct.h'],
     [('StructDescriptor::assign/copy/merge/swap/clear/construct/destruct', TS + 'StructDescriptor.cpp'), ('Property::emplace/assign/reset/swap', T + 'Property.h'), ('PropertyIterator::operator++', T + 'PropertyIterator.h')], ['Struct::_validProperties()', 'property values'],
     [('valid properties', 'the set of properties whose slot holds a live value', T + 'PropertyArea.h')])
claim('C06', TECH, 'StructDescriptor operations (typed and type-erased) and the property iterator are proved for every number of properties, every property type obeying the value-descriptor interface contract, every mask and value, with loop invariants and lifecycle obligations. Interface contract of scalar/vector value descriptors is assumed (StructDescriptor is itself proved to implement it); StaticStruct/DynamicStruct wrappers are covered by a bounded run-time check.')
prop('C07', 'Struct comparison is consistent with property values', 'For every struct type, pair of instances and included mask: equality holds exactly if every included property is equal (both invalid, or both valid with equal values), same() compares exactly the key properties, less is the lexicographic order over the included properties in descriptor order with invalid before valid, lessEqual/greater/greaterEqual are the corresponding negations and swaps, and the difference set contains exactly the included properties that differ.',
     ['inputs'], 'all struct types, validity masks, values and included masks', 'tests compare a few instances; container lookup, change detection (updated-properties computation) and ordering rely on it for arbitrary values',
     [TS + 'StructDescriptor.cpp', T + 'Property.h', T + 'PropertyPairIterator.h', T + 'StaticStruct.h'], [('StructDescriptor::equal/same/less/.../diffProperties', TS + 'StructDescriptor.cpp')], ['Struct::_equal()', 'Struct::_less()', 'Struct::_diffProperties()'])
claim('C07', TECH, 'Proved for every number and type of properties with loop invariants over the real loops; value-level equal/less are uninterpreted relations. StaticStruct variants are covered by a bounded run-time check.')
D = 'lib/src/io/DescriptorConverter.cpp'
prop('C08', 'Types created from descriptions have a sound layout and keep the description', 'For every struct description received from elsewhere, the created dynamic type has exactly the described name, properties (in order, with names, tags, key marks and resolved types) and flags; each property is aligned for its type, overlaps neither the valid mask nor another property and lies inside of the instance; and all validity indices are distinct and below 32. A description that cannot satisfy this (unknown type, bad or duplicate tag) is rejected with an exception and registers no type. Describing a type and converting the description back yields the same type.',
     ['inputs'], 'all descriptions (any number, order and type of properties, any tags and names) and all registry contents', 'descriptions come from peers over the network and decide where values are stored in memory; tests convert a few well-formed ones',
     [D, T + 'PropertyOffset.h', T + 'DynamicStruct.h'], [('DescriptorConverter::operator()', D), ('PropertyOffset::Next/First', T + 'PropertyOffset.h')], ['StructDescriptor::propertyDescriptors()', 'StructDescriptor::size()'])
claim('C08', TECH, 'PropertyOffset is proved for all offsets and sizes and every alignment up to 4096; the description-to-type conversion loop is proved against its contract for any number of properties with an inductive invariant (alignment, disjointness, distinct tags, faithful copies, area size). Registry and descriptor constructors are assumed contracts; the reverse direction and enum conversion are covered by a bounded run-time check.')
CN = 'lib/src/Container.cpp'; CP = 'lib/src/ContainerPool.cpp'
prop('C09', 'A container mirrors the history of its instances', 'For every history of insertions and removals, a container holds exactly the instances created and not removed, one per distinct key, ordered by their key properties: an insertion with an unknown key adds the given instance; with a known key it replaces exactly the non-key properties included in the header by the given values (or makes them invalid) and keeps everything else; a removal takes out exactly the instance with this key. Meta information records creation, last update, sender and times accordingly, a failing operation loses no instance, and lookup by key finds exactly the matching instance. A container pool keeps exactly one container per type, found by type and by name until it is removed.',
     ['inputs', 'histories'], 'all struct types, histories, keys, values, included masks and headers (also incomplete ones)', 'the container is the local cache every user reads; its content depends on the whole history of received events, tests replay a few steps with complete headers',
     [CN, 'lib/include/dots/Container.h', CP], [('Container::insert/remove/updateWithoutKeys', CN), ('Container::key_compare', CN), ('ContainerPool::get/find/remove', CP)], ['Container::find()', 'iteration', 'DotsCloneInformation', 'ContainerPool::find()'],
     [('instances by key', 'the finite map from key values to instance and clone information', CN)])
claim('C09', TECH, 'updateWithoutKeys, the key order, the key lists built by the constructors, insert, remove and the lookups are proved for every type, mask and header; std::map / std::unordered_map are assumed to be finite maps under the proved order. Whole histories additionally run against a model (bounded).')
DP = 'lib/src/Dispatcher.cpp'
prop('C10', 'Every handler is called exactly once per dispatch with the right event', 'For every history of adding and removing handlers and dispatching transmissions, also from within handlers, a dispatch calls each handler that is registered for the type (transmission handlers first, then the container is updated, then event handlers) exactly once unless it is removed before its turn, and never a removed one; no handler is destroyed while it runs, and a failing handler is reported to the error handler and does not keep the others from being called. Events carry the header, the transmitted instance, the updated instance and clone information of the container (which stay valid during the event), and the operation; a removal of an unknown instance is no event, a removal of an uncached one is an error. A new event handler first gets one create event per cached instance, with fromCache counting down to zero, and removing an unknown handler is an error.',
     ['inputs', 'histories'], 'all types, transmissions, handler sets, and all re-entrant use of the dispatcher by handlers', 'every subscription of every user runs through it; re-entrant histories are unbounded, tests try a few',
     [DP, 'lib/src/Event.cpp', 'lib/include/dots/Dispatcher.h'], [('Dispatcher::dispatch/dispatchEvent/dispatchToHandlers', DP), ('Dispatcher::addEventHandler', DP), ('Dispatcher::removeHandler', DP)], ['calls of handlers', 'Event accessors', 'error handler'],
     [('handlers by type and id', 'finite maps, ids marked as dispatching and as removed', DP)])
claim('C10', TECH, 'All dispatcher operations are proved against an arbitrary re-entrant environment (rely/guarantee); containers are used by their contracts (C09), std containers are assumed. Re-entrant histories additionally run against a model (bounded).')
SZ = 'lib/include/dots/serialization/'
prop('C11', 'CBOR documents carry exactly the included properties and decode to same values', 'For every struct type (any properties, nested structs, vectors, enums) and included mask, serializing an instance writes one map with exactly one entry per included valid property, in descriptor order, keyed by tag and followed by the value. Deserializing any document into any instance assigns each known included entry its property (creating it if necessary), skips all other entries completely, whatever they contain, and leaves all other properties alone, so decoding the encoding of an instance gives the same valid properties with equal values, also for a receiver whose version of the type has other properties; nested structs are always encoded and decoded completely. A malformed document ends with an exception, without unbounded memory use, and does not affect later use of the serializer.',
     ['inputs', 'histories'], 'all struct types, masks, values, target instances and input bytes, all sequences of uses of a serializer', 'every instance that is sent, received, recorded or cached passes through it, with arbitrary masks and from peers with other versions of the types; tests encode a few fixed instances',
     [SZ + 'CborSerializer.h', SZ + 'Serializer.h', T + 'TypeVisitor.h', TS + 'EnumDescriptor.cpp'], [('CborSerializer::visit*Derived', SZ + 'CborSerializer.h'), ('TypeVisitor::visit*Internal', T + 'TypeVisitor.h'), ('EnumDescriptor::enumeratorFromTag', TS + 'EnumDescriptor.cpp')], ['CborSerializer::serialize()', 'CborSerializer::deserialize()', 'output bytes'])
claim('C11', TECH, 'Encoding and decoding of structs, properties, vectors, enums and scalars are proved for every type, mask and input over the real visitor (dynamic instances: typeless visit), with reader and writer by their contracts. Known finding: single properties of struct type. Statically typed visits and whole documents (also malformed ones and other versions of the type) are covered by a bounded run-time check.')
HT = 'lib/src/HostTransceiver.cpp'
prop('C12', 'The host forwards every update to exactly the guests that joined its type', 'For every history of guests connecting, joining and leaving groups, publishing, failing and disconnecting: each transmission received from a guest or published by the host goes to the local handlers and then, unchanged, exactly once to every open connection that is a member of the group of its type (and to nobody else); a guest that fails is closed and keeps nobody else from being served. A guest that joins the group of a cached type first gets every cached instance exactly once with all its properties, its last sender and time and the number of instances left, and then the end mark; requests (membership, descriptors, echo) are answered to the guest that asked and not forwarded, also answers are not answered again. When a connection is closed it leaves all groups and exactly the instances of types with cleanup that it updated last are removed; clearing the cache removes exactly the instances of the given types; no connection or instance is used after it was destroyed.',
     ['histories', 'fault_sequences'], 'all sets of connections, groups, cached instances and messages, every transmission failing at any point, handlers that publish, remove and join meanwhile', 'it is the central promise of the host; which guests fail and in which order is unbounded, tests use two or three guests that work',
     [HT, 'lib/src/Connection.cpp', 'lib/src/io/Transmission.cpp'], [('HostTransceiver::transmit', HT), ('HostTransceiver::handleTransmission', HT), ('HostTransceiver::handleMemberMessage', HT), ('HostTransceiver::transmitContainer', HT), ('HostTransceiver::publish', HT), ('HostTransceiver::handleTransitionImpl', HT)], ['messages sent to each channel', 'calls of local handlers', 'containers of the host'],
     [('group members', 'connections that joined the group of a type and are not closed', HT)])
claim('C12', TECH, 'transmit, handleTransmission, handleMemberMessage, transmitContainer, publish and handleEchoRequest are proved for every set of connections and instances and every failure; connections are used by the contracts of transmit and handleError, unordered containers are abstract sets. Clearing the cache, leaving (cleanup) and descriptor requests, and whole histories, are covered by a bounded run-time check.')
CN = 'lib/src/Connection.cpp'
prop('C13', 'A connection follows the protocol and delivers exactly what it receives', 'For every sequence of messages, errors and failures, on both sides, a connection starts once, goes from suspended through connecting (and early_subscribe, if the cache is preloaded) to connected, and ends in closed, each change reported exactly once, with the error if there was one; each step of the handshake is only done for the expected message with its required properties, in its order and answered as the protocol says; authentication, if there is any, decides acceptance; a guest that the host did not accept, or a host that cannot be trusted, never gets to early_subscribe or connected. Instances are delivered only in early_subscribe or connected and only with all key properties, each exactly once with header unchanged except for: the sender (the id of the guest on a host), the time of sending and receiving, and whether it came from this connection. Anything else, any exception of any kind and any failure of the channel closes the connection with an error, after telling the peer if it was connected; nothing is delivered or received afterwards.',
     ['histories', 'fault_sequences', 'inputs'], 'all messages in all states on both sides, every step failing with any exception', 'every connection starts with the handshake and everything received goes through it; the peer is not trusted, and the failing steps and orders are unbounded; tests use a few complete handshakes',
     [CN, 'lib/include/dots/Connection.h'], [('Connection::handleReceive', CN), ('Connection::handleHello', CN), ('Connection::handleConnect', CN), ('Connection::handleAuthorizationRequest', CN), ('Connection::handleError', CN), ('Connection::setConnectionState', CN), ('Connection::transmit', CN)], ['messages sent to the channel', 'transition handler', 'receive handler', 'Connection::state()'],
     [('m_expectedSystemType', 'the type and properties of the next message of the handshake', CN)])
claim('C13', TECH, 'Every step of the handshake, the delivery of instances, errors, closing and destruction are proved for every message, state and failure; channel, handlers and authentication manager are arbitrary and can throw. Strings, nonces and digests are opaque. Whole histories on both sides additionally run against a model (bounded).')
AS = 'lib/include/dots/serialization/AsciiSerialization.h'
prop('C20', 'Text and JSON documents decode to the values they were written from', 'For every instance, what is written as text or JSON (also formatted) reads back as the same valid properties with equal values, and any other text is either read as the value it denotes or rejected with an exception at the position of the error.',
     ['inputs'], 'all struct types and values, all texts, all formatting options', 'escapes, number formats and nesting are unbounded; tests compare fixed documents',
     [SZ + 'StringSerializer.h', SZ + 'formats/StringReader.h', SZ + 'formats/StringWriter.h'], [('StringReader::read', SZ + 'formats/StringReader.h'), ('StringWriter::write', SZ + 'formats/StringWriter.h')], ['StringSerializer::serialize()', 'StringSerializer::deserialize()'])
na('C20', 'Not within reach of the VC generator: reading and writing numbers goes through iostreams and their locales (std::ostringstream, std::setprecision, strto*), which have no usable semantics at IR level, and the content of strings (escapes) would need a theory of strings over heap allocated std::string; contracts on these externals would assume the round trip itself.')
CHN = 'lib/include/dots/io/channels/AsyncStreamChannel.h'
prop('C21', 'Stream channels deliver every message once, in order and unchanged', 'For every fragmentation of the byte stream, schedule of completions and failure, a peer receives exactly the messages that were sent, complete and in order, up to the first failure, after which each side is told exactly once and nothing more is delivered.',
     ['schedules', 'inputs', 'fault_sequences'], 'all fragmentations, interleavings of reads, writes and closes, and failures at any point', 'tests use local channels or one order of completions',
     [CHN, 'lib/src/io/Channel.cpp'], [('AsyncStreamChannel::asyncReadHeader/asyncReadInstance', CHN), ('Channel::receive/transmit', 'lib/src/io/Channel.cpp')], ['receive handler', 'error handler'])
na('C21', 'The control flow lies in asio (composed operations, executors, completion handlers type-erased through several template layers) and the property is about schedules of completions and liveness; function contracts over sequential code cannot express it, and the framing logic is not separable from asio without a hand-written model.')
AU = 'lib/src/io/auth/LegacyAuthManager.cpp'
prop('C22', 'Access rules decide who is accepted, and only with the right secret', 'For every set of rules, a guest is accepted exactly if the first matching rule (by address and name, in order of priority) accepts it, and if the rule asks for a secret, only if the guest proves that it knows the secret for the nonce it was given.',
     ['inputs', 'histories'], 'all sets of rules, addresses, names, secrets, nonces and histories of rule changes', 'tests use a few rules and one secret',
     [AU, 'lib/src/io/auth/Digest.cpp', 'lib/src/tools/IpNetwork.cpp'], [('LegacyAuthManager::verifyAuthentication', AU), ('Digest', 'lib/src/io/auth/Digest.cpp')], ['AuthManager::verifyAuthentication()'])
na('C22', 'Rests on SHA-256 over formatted strings (the unforgeability of a digest is no functional contract), and on std::multimap, asio addresses and string parsing whose contents are opaque to the VC generator; how a connection uses the decision of any manager is decided by C13.')
prop('C23', 'Times, durations, UUIDs and URIs survive formatting and parsing', 'For every time point, duration, UUID and URI, parsing the formatted text yields an equal value, and malformed text is rejected with an exception.',
     ['inputs', 'configurations'], 'all values, formats and time zones', 'tests use fixed dates and strings',
     ['lib/src/type/Chrono.cpp', 'lib/src/type/Uuid.cpp', 'lib/src/tools/Uri.cpp'], [('TimePoint::FromString / toString', 'lib/src/type/Chrono.cpp'), ('Uri', 'lib/src/tools/Uri.cpp')], ['toString()', 'constructors from text'])
na('C23', 'Implemented with std::put_time/std::get_time, strftime, mktime, std::regex and iostreams (locale and time zone of the process); all of the behaviour is inside of these externals, contracts for them would be the property.')
prop('C24', 'Generated types agree with their models', 'For every valid .dots model the generated C++ types have exactly the modelled properties, tags, types, keys and flags, and an invalid model is rejected.',
     ['programs'], 'all models', 'tests generate the types of a few models',
     ['dots-cg-cpp'], [('templates', 'dots-cg-cpp')], ['generated headers'])
na('C24', 'The generator is a text template processed by an external tool; its output is C++ source text, for which a deductive verifier would need a formal semantics of the template language. The generated types that the checks use are compiled and verified as they come out (C06, C12, C13).')
